"""Every recursion is bounded. The cycles of the call graph (over instances: function and type arguments; through closures,
function values and callbacks of binrw/serde/iterators) are enumerated; each must be bounded by one of: (a) an integer
argument that every recursive call moves by at least one towards a constant bound proved at the call, together with a
membership guard (the call is only reached after an insertion into a set, shared by all calls, that was new), (b) the
recursive call is unreachable when its own arguments are followed, (c) it consumes a value of a recursive type and only
passes proper parts of it. Functions that build values of a recursive type out of input need (a)."""
import cg, engine
from dom import K

LEVEL = 'proof'
TECHNIQUE = 'call graph cycles over instances; abstract interpretation of recursion arguments; part-of dataflow on arguments'
NOTE = 'All call graph cycles of both crates. One finding is recorded: nesting of XML playlists. Depth bounds up to 4096 are accepted.'
ASSUMPTIONS = ['binrw, serde, quick-xml, fallible_iterator call back only the trait methods of the types they are given',
               'std functions do not recurse without bound (except through derived Debug/PartialEq/Drop of nested values, '
               'whose depth is that of the value)']
MAXDEPTH = 4096
GUARDS = ('HashSet', 'BTreeSet')


def name(f):
    p = f['path']
    i = p.find('::{closure')
    return p[:i] if i >= 0 else p


def recursive_adts(cr):
    adts = cr.adts

    def refs(p):
        a = adts.get(p)
        out = set()
        for v in (a or {}).get('variants', ()):
            for fd in v['f']:
                cg.local_adts(cr, fd['t'], out)
        return [x for x in out if x in adts]
    rec = set()
    for c in cg.sccs(list(adts), refs):
        if len(c) > 1 or c[0] in refs(c[0]):
            rec |= set(c)
    return rec, {p for p in adts if rec & reach(p, refs)}


def reach(p, refs):
    seen, todo = set(), [p]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += refs(x)
    return seen


def adts_of(cr, ti):
    return {p.replace('rekordcrate::', '') for p in cg.local_adts(cr, ti)}


class Parts:
    """which locals of the functions of a cycle hold the whole recursive argument ('w'), proper parts of it ('p') or
    something of unknown origin ('?'); only locals whose type mentions a recursive type are tracked"""

    def __init__(self, fs, rec, hold):
        self.rec, self.hold = rec, hold
        self.tags = {}       # (fn key, local) -> set
        self.fs = {f['key']: f for f in fs}
        for f in fs:
            if f['kind'] == 'closure':
                continue
            for j in range(1, f['argc'] + 1):
                if self.interesting(f, j):
                    self.add(f['key'], j, {'w'})
        self.changed = True
        while self.changed:
            self.changed = False
            for f in fs:
                self.step(f)

    def interesting(self, f, l):
        cr = f['crate']
        t = cr.T[f['locals'][l]['t']]
        while t['k'] in ('ref', 'ptr'):
            t = cr.T[t['t']]
        return t['k'] == 'closure' or bool(adts_of(cr, f['locals'][l]['t']) & self.hold) or t['k'] == 'adt' and \
            any(isinstance(a, int) and cr.T[a]['k'] == 'closure' for a in t.get('args', ()))

    def add(self, k, l, s):
        x = self.tags.setdefault((k, l), set())
        if not s <= x:
            x |= s
            self.changed = True

    def place(self, f, pl):
        s = set(self.tags.get((f['key'], pl['l']), ()))
        if s and any(isinstance(p, dict) and ('f' in p or 'ix' in p or 'ci' in p) or isinstance(p, list) and p[0] in ('f', 'i', 'ci')
                     for p in pl.get('p', ())):
            cl = f['crate'].T[f['locals'][pl['l']]['t']]
            while cl['k'] in ('ref', 'ptr'):
                cl = f['crate'].T[cl['t']]
            if cl['k'] == 'adt' and cl['path'].replace('rekordcrate::', '') in self.hold:
                s = {'p' if x == 'w' else x for x in s}
        return s

    def op(self, f, o):
        pl = o.get('c') or o.get('m')
        return self.place(f, pl) if pl else set()

    def step(self, f):
        k = f['key']
        for b in f['blocks']:
            for s in b['s']:
                if s.get('k') != '=':
                    continue
                rv = s['rv']
                out = set()
                for o in cg.operands(rv):
                    out |= self.op(f, o)
                if 'pl' in rv:
                    out |= self.place(f, rv['pl'])
                if rv.get('ak') == 'adt' and rv.get('path', '').replace('rekordcrate::', '') in self.rec:
                    out = {'?'}
                if rv.get('ak') == 'closure' and rv.get('key') in self.fs:
                    self.add(rv['key'], 1, {x for x in out})
                if out:
                    self.add(k, s['pl']['l'], out)
            t = b['t']
            if t['k'] == 'call':
                out = set()
                for o in t['args']:
                    out |= self.op(f, o)
                # what a call is given whole it may give back whole, and hand to the closures it is given
                if out:
                    self.add(k, t['dst']['l'], out)
                    for o in t['args']:
                        for ck in self.closures(f, o):
                            g = self.fs[ck]
                            for j in range(2, g['argc'] + 1):
                                if self.interesting(g, j):
                                    self.add(ck, j, out)
                elif self.interesting(f, t['dst']['l']):
                    self.add(k, t['dst']['l'], {'?'})

    def closures(self, f, o):
        pl = o.get('c') or o.get('m')
        ti = f['locals'][pl['l']]['t'] if pl else (o.get('k') or {}).get('t')
        out = []
        cr = f['crate']

        def go(ti, d):
            if not isinstance(ti, int) or d > 6:
                return
            t = cr.T[ti]
            if t['k'] == 'closure':
                if t['key'] in self.fs:
                    out.append(t['key'])
            elif t['k'] in ('ref', 'ptr'):
                go(t['t'], d + 1)
            elif t['k'] == 'adt':
                for a in t.get('args', ()):
                    go(a, d + 1)
        if ti is not None:
            go(ti, 0)
        return out


def structural(ctx, fs, es, rec, hold, I):
    """(c): every call back into a named function of the cycle passes only proper parts of a recursive argument"""
    P = Parts(fs, rec, hold)
    n = 0
    for (v, e) in es:
        f, g = I.nodes[v], I.nodes[e[0]]
        if g['kind'] == 'closure':
            continue
        t = f['blocks'][e[2]]['t']
        if t['k'] != 'call':
            return False, 'a recursive function is used as a value'
        tags = set()
        for o in t['args']:
            pl = o.get('c') or o.get('m')
            if pl and adts_of(f['crate'], f['locals'][pl['l']]['t']) & hold:
                tags |= P.op(f, o)
        if tags != {'p'}:
            return False, '%s calls %s with %s' % (f['path'], g['path'], 'a value of unknown origin' if '?' in tags else
                                                   'the whole argument' if tags else 'no part of its argument')
        n += 1
    return n > 0, 'no recursive call passes on a part'


def counted(ctx, E, F, label):
    """(a) for calls of F inside F: (ok, reason, guarded, calls)"""
    cr = F['crate']
    params = {}
    ins, calls = [], []

    def init(E_, st, fr, j, ti):
        v = E_.fresh(cr, ('rec', F['key'], j), ti)
        params[j] = v
        return v

    def result(E_, key, st, fr, data, site):
        callee, args, v = data
        if any(g in callee['p'] for g in GUARDS) and callee.get('name') in ('insert', 'contains', 'remove', 'clear', 'drain',
                                                                            'retain', 'take', 'get_or_insert_with'):
            ins.append((callee['name'], args[0][0] if args else None, v, fr))

    def call(E_, key, st, fr, data, site):
        callee, args, t = data
        g = E_.local_fn(fr, callee)
        if g is F:
            calls.append((st.copy(), [a for a, _ in args], t.get('ln'), list(ins)))
    E.hooks['result'], E.hooks['call'] = result, call
    try:
        E.analyse(F, init, label=label)
        E.run_created()
    finally:
        E.hooks.pop('result'), E.hooks.pop('call')
    if not calls:
        return False, 'the recursive call is not a direct call', False, 0
    counter = None
    for j, p in params.items():
        if p[0] != 'i':
            continue
        ok = True
        for st, args, ln, _ in calls:
            a = args[j]
            if not (a[0] == 'i' and st.F.entails(a[1].sub(p[1]).addc(-1)) and
                    st.F.entails(K(MAXDEPTH).sub(p[1]))):
                ok = False
        if ok:
            counter = j
            break
    guarded = True
    for st, args, ln, _ in calls:
        g = False
        for kind, s, v, fr in ins:
            if kind != 'insert' or v is None or v[0] != 'b' or s is None or s[0] != 'ref':
                continue
            st2 = st.copy()
            if E.assume(st2, engine.neg(v[1])):
                continue            # the call can be reached without the insertion having been new
            # the same set is handed on
            for j, p in params.items():
                if p[0] == 'ref' and args[j][0] == 'ref' and p[1] == s[1] and args[j][1] == p[1] and args[j][2] == p[2]:
                    g = True
        guarded = guarded and g
    for kind, s, v, fr in ins:
        if kind in ('remove', 'clear', 'drain', 'retain', 'take'):
            guarded = False
    if counter is None:
        return False, 'no integer argument moves towards a constant bound at every recursive call', guarded, len(calls)
    return True, 'argument %d of %s' % (counter, F['path']), guarded, len(calls)


def unfolds(ctx, crates, F, fs):
    """(b): following the recursive call, the next one is unreachable"""
    E = engine.Engine(crates)
    E.cr = F['crate']
    for f in fs:
        E.unroll[f['key']] = 1
    hit = [0, 0]

    def call(E_, key, st, fr, data, site):
        callee, args, t = data
        if E_.local_fn(fr, callee) is F:
            n = sum(1 for c in fr.chain if c[0] == F['key'])
            hit[0 if n == 1 else 1] += 1
    E.hooks['call'] = call
    E.analyse(F, label='unfold')
    return hit[0] > 0 and hit[1] == 0 and not E.blocked & {f['key'] for f in fs}


def run(ctx):
    G = cg.CallGraph(ctx.crates)
    I = cg.Instances(G, engine.Engine(ctx.crates))
    ctx.floor('instances in the call graph', len(I.out), 2500)
    ctx.cov['call graph edges'] = sum(len(x) for x in I.out.values())
    rec, hold = set(), set()      # types that contain themselves, types that contain one of those
    for cr in ctx.crates.values():
        r, h = recursive_adts(cr)
        rec |= r
        hold |= h
    ctx.cov['recursive types'] = sorted(rec)
    done = set()
    n = 0
    for c, es in sorted(I.cycles(), key=lambda x: min(I.nodes[v]['path'] for v in x[0])):
        fs = list({id(I.nodes[v]): I.nodes[v] for v in c}.values())
        sig = frozenset(id(f) for f in fs)
        if sig in done:
            continue
        done.add(sig)
        n += 1
        named = [f for f in fs if f['kind'] != 'closure']
        nm = min(name(f) for f in fs)
        if all(e[1] == 'callback' or 'serde' in (I.nodes[e[0]].get('trait') or '') or 'Deserialize' in I.nodes[e[0]]['path']
               for v, e in es) and any('Deserialize' in f['path'] or (f.get('trait') or '').endswith('BinRead') for f in fs):
            ts = sorted({p for f in fs if f.get('self') is not None for p in adts_of(f['crate'], f['self'])} & rec)
            ctx.ob(False, 'recursive-reader:' + (ts[0] if ts else nm), ctx.where(fs[0]),
                   'values of the recursive type %s are read recursively, as deep as the input nests them' % ', '.join(ts))
            continue
        why = []
        ok, r = structural(ctx, fs, es, rec, hold, I) if rec else (False, 'no recursive type')
        how = 'consumes a value of a recursive type and passes proper parts only' if ok else None
        if not ok:
            why.append(r)
            for F in named:
                # every cycle has to pass through F
                sub = [v for v in c if I.nodes[v] is not F]
                ss = set(sub)
                acyclic = all(len(x) == 1 and not any(e[0] == x[0] for e in I.out[x[0]])
                              for x in cg.sccs(sub, lambda v: [e[0] for e in I.out[v] if e[0] in ss]))
                if not acyclic:
                    continue
                E = engine.Engine(ctx.crates)
                E.cr = F['crate']
                a, r, guarded, k = counted(ctx, E, F, 'rec')
                if a and guarded:
                    ok, how = True, 'bounded by %s, one visit per new element of a shared set' % r
                elif a:
                    why.append('depth is bounded by %s, but the same node can be visited any number of times' % r)
                else:
                    why.append(r)
                    if k and unfolds(ctx, ctx.crates, F, fs):
                        ok, how = True, 'the recursive call is unreachable from itself'
                if ok:
                    break
        ctx.ob(ok, 'recursion:' + nm, ctx.where(named[0] if named else fs[0]),
               'unbounded recursion through %s: %s' % (', '.join(sorted(name(f) for f in named)), '; '.join(why)),
               '%s: %s' % (nm, how))
    ctx.floor('recursive cycles', n, 1)
