"""Every loop ends. Each loop of every body (strongly connected component of its control flow) has to be bounded by one of:
(a) it can only continue when a call of next on a finite iterator (or next_key/next_element of a serde access) that is
made in every round has answered with an item and without an error; (b) an integer, a collection length or a stream position that the
abstract interpreter proves to move by at least one per round towards a bound that the loop does not change. Iterators
implemented here have to shrink a length or move an integer towards a bound whenever they answer with an item (per path);
ranges over 64-bit integers have to end at a proved bound; no consuming adapter is run on an infinite iterator."""
import re
import cg, engine
from dom import K

LEVEL = 'proof'
TECHNIQUE = 'control flow analysis of loops; ranking arguments by abstract interpretation (lengths, integers, stream positions)'
NOTE = 'All loops of both crates; std/serde/binrw iterators other than the known infinite sources are taken to be finite.'
ASSUMPTIONS = ['iterators and map/sequence accesses of std, serde and quick-xml over finite inputs are finite',
               'the underlying stream is finite, and a successful read of n bytes moves it by n bytes']
INFINITE = re.compile(r'(Cycle|Repeat|RepeatWith|RangeFrom|Successors|FromFn|RepeatN)<|repeat_with|core::ops::range::RangeFrom')
FINITE = re.compile(r'\b(Take|TakeWhile|Zip|MapWhile)<')
NEXT = ('next', 'next_back', 'next_key', 'next_key_seed', 'next_element', 'next_element_seed', 'next_entry', 'nth')
NEXT_TR = re.compile(r'(iterator::Iterator|DoubleEndedIterator|FallibleIterator|de::MapAccess|de::SeqAccess)$')
CONSUME = ('collect', 'for_each', 'try_for_each', 'fold', 'try_fold', 'count', 'last', 'sum', 'product', 'max', 'min', 'all',
           'any', 'extend', 'unzip', 'partition', 'max_by_key', 'min_by_key', 'find', 'position')
POSITIVE = {'core::option::Option': 1, 'core::result::Result': 0, 'core::ops::control_flow::ControlFlow': 0}


def base(f, o, d=0):
    """the local an (&mut) operand refers to"""
    pl = o.get('c') or o.get('m')
    if pl is None or d > 6:
        return None
    l = pl['l']
    asg = [s['rv'] for b in f['blocks'] for s in b['s'] if s.get('k') == '=' and s['pl'] == {'l': l}]
    if len(asg) == 1 and asg[0]['k'] == 'ref':
        p = asg[0]['pl']
        if p.get('p') and p['p'] != ['*']:
            return p['l']
        if p.get('p') == ['*']:
            return base(f, {'c': {'l': p['l']}}, d + 1)
        return p['l']
    if len(asg) == 1 and asg[0]['k'] == 'use':
        return base(f, asg[0]['o'], d + 1)
    return l


def itertype(cr, c):
    t = cr.T[c['args'][0]] if c.get('args') and isinstance(c['args'][0], int) else None
    while t is not None and t['k'] == 'ref':
        t = cr.T[t['t']]
    return t


def derived(f, d, nodes):
    D = {d}
    ch = True
    while ch:
        ch = False
        for b in f['blocks']:
            for s in b['s']:
                if s.get('k') != '=' or s['pl']['l'] in D:
                    continue
                rv = s['rv']
                src = [o.get('c') or o.get('m') for o in cg.operands(rv)]
                if 'pl' in rv:
                    src.append(rv['pl'])
                if any(p and p['l'] in D for p in src):
                    D.add(s['pl']['l'])
                    ch = True
            t = b['t']
            if t['k'] == 'call' and t['dst']['l'] not in D:
                for o in t['args']:
                    p = o.get('c') or o.get('m')
                    if p and p['l'] in D:
                        c = cg.callee(f['crate'], t)
                        if c and c.get('name') in ('branch', 'map_err', 'transpose', 'ok', 'ok_or', 'ok_or_else', 'from_output',
                                                   'as_ref', 'as_mut', 'map', 'cloned', 'copied', 'into'):
                            D.add(t['dst']['l'])
                            ch = True
    return D


def place_type(f, pl):
    cr = f['crate']
    ti = f['locals'][pl['l']]['t']
    for e in pl.get('p', ()):
        t = cr.T[ti]
        if e == '*':
            ti = t.get('t')
        elif isinstance(e, dict) and 'f' in e:
            ti = e['t']
        elif isinstance(e, dict) and ('i' in e or 'ci' in e):
            ti = t.get('t')
        if ti is None:
            return None
    return cr.T[ti]


def discr_switches(f, D):
    """blocks that switch on the discriminant of something derived: block -> (enum, {value: target}, else)"""
    res = {}
    for bi, b in enumerate(f['blocks']):
        t = b['t']
        if t['k'] != 'switch':
            continue
        o = t['o'].get('c') or t['o'].get('m')
        if o is None:
            continue
        for b2 in f['blocks']:
            for s in b2['s']:
                if s.get('k') == '=' and s['pl'] == {'l': o['l']} and s['rv']['k'] == 'discr' and s['rv']['pl']['l'] in D:
                    ty = place_type(f, s['rv']['pl'])
                    if ty and ty.get('path') in POSITIVE:
                        res[bi] = (ty['path'], {v: tg for v, tg in t['vals']}, t.get('else'))
    return res


def reach(adj, src, ns, cut=()):
    seen, todo = set(), [src]
    while todo:
        v = todo.pop()
        if v in seen or v not in ns:
            continue
        seen.add(v)
        todo += [w for w in adj[v] if (v, w) not in cut]
    return seen


def by_iterator(f, ns):
    cr = f['crate']
    bl = f['blocks']
    adj = [cg.succ(b['t']) for b in bl]
    ents = {v for v in ns if any(v in adj[u] for u in range(len(bl)) if u not in ns)} or {min(ns)}
    why = 'no call of next in every round'
    for n in sorted(ns):
        c = cg.callee(cr, bl[n]['t'])
        if c is None or c.get('name') not in NEXT or not NEXT_TR.search(c.get('tr') or ''):
            continue
        rest = ns - {n}
        bad = False
        for comp in cg.sccs(sorted(rest), lambda v: [w for w in adj[v] if w in rest]):
            if (len(comp) > 1 or comp[0] in adj[comp[0]]) and ents & set(comp):
                bad = True
        if bad:
            continue
        ty = itertype(cr, c)
        s = ty['s'] if ty else ''
        if INFINITE.search(s) and not FINITE.search(s):
            why = 'the iterator %s is infinite' % s[:80]
            continue
        it = base(f, bl[n]['t']['args'][0]) if bl[n]['t']['args'] else None
        if it is not None and it > f['argc'] and any(
                (any(x.get('k') == '=' and x['pl'] == {'l': it} for x in bl[v]['s']) or
                 (bl[v]['t']['k'] == 'call' and bl[v]['t']['dst'] == {'l': it})) for v in ns):
            why = 'the iterator is replaced inside the loop'
            continue
        D = derived(f, bl[n]['t']['dst']['l'], ns)
        sw = discr_switches(f, D)
        neg, pos = [], set()
        for b, (en, vals, els) in sw.items():
            if b not in ns:
                continue
            p = POSITIVE[en]
            for v, tg in list(vals.items()) + ([(None, els)] if els is not None else []):
                is_pos = v == p or (v is None and p not in vals)
                if is_pos and en == 'core::option::Option':
                    pos.add((b, tg))
                elif not is_pos:
                    neg.append(tg)
        back = [tg for tg in neg if n in reach(adj, tg, ns)]
        if back:
            why = 'the loop goes on after next has answered None or an error (line %s)' % bl[back[0]]['t'].get('ln')
            continue
        loose = any(n in reach(adj, tg, ns, pos) for tg in adj[n])
        if loose:
            why = 'the loop can go on without testing what next has answered'
            continue
        return True, 'next of %s' % s[:100], c, ty
    return False, why, None, None


def leaves(v, pre=()):
    if v is None:
        return
    if v[0] == 'i':
        yield pre, v[1]
    elif v[0] == 'seq':
        yield pre + ('len',), v[2]
    elif v[0] in ('st', 'en'):
        for n, x in v[3 if v[0] == 'st' else 4]:
            yield from leaves(x, pre + (n,))


def allleaves(st):
    out = {}
    for r, v in st.mem.items():
        for p, l in leaves(v):
            if hasattr(l, 'sub'):
                out[(r, p)] = l
    return out


def ranked(head, back):
    hl = allleaves(head)
    bls = [(s, allleaves(s)) for s in back]
    if not bls:
        return True, 'no round completes'
    for k, l in hl.items():
        if all(k in b and s.F.entails(b[k].sub(l).addc(-1)) for s, b in bls):
            # going up: something that the loop does not change stays above
            for k2, l2 in hl.items():
                if k2 != k and all(k2 in b and b[k2] == l2 and s.F.entails(l2.sub(l)) for s, b in bls):
                    return True, 'moves up to a bound'
            if all(s.F.entails(K(2 ** 33).sub(l)) for s, b in bls):
                return True, 'moves up to a constant'
        if all(k in b and s.F.entails(l.sub(b[k]).addc(-1)) and s.F.entails(l) for s, b in bls):
            return True, 'moves down to zero'
    return False, 'no integer, length or stream position provably moves towards a bound'


def run(ctx):
    G = cg.CallGraph(ctx.crates)
    nl = 0
    how = {}
    local_iters = {}
    for f in G.fns:
        cr = f['crate']
        for ns in cg.loops(f):
            nl += 1
            key = 'loop:%s' % f['path']
            ln = f['blocks'][min(ns)]['t'].get('ln')
            ok, why, c, ty = by_iterator(f, ns)
            why2 = ''
            if ok and re.search(r'Range(Inclusive)?<[ui](64|128|size)>', ty['s'] if ty else '') and not FINITE.search(ty['s']):
                ok, why = bounded_range(ctx, f)
            if not ok:
                E = engine.Engine(ctx.crates)
                E.cr = cr
                heads = {}

                def loop(E_, k, head, fr, back, b):
                    if k == f['key'] and b in ns:
                        r = ranked(head, [s for _, s in back])
                        old = heads.get(b)
                        heads[b] = r if old is None or not r[0] else old
                E.hooks['loop'] = loop
                E.analyse(owner(f))
                E.run_created()
                r = [x for x in heads.values()]
                ok = bool(r) and any(x[0] for x in r)
                why2 = next((x[1] for x in r if x[0] == ok), 'the loop is not reached by the analysis')
                if ok:
                    why = why2
            how.setdefault('iterator' if ok and c else 'ranking' if ok else 'none', []).append(f['path'])
            ctx.ob(ok, key, ctx.where(f, ln), 'the loop is not known to end: %s; %s' % (why, why2), '%s: %s' % (f['path'], why))
    ctx.floor('loops', nl, 15)
    ctx.cov['loops driven by iterators'] = len(how.get('iterator', ()))
    ctx.cov['loops with a ranking'] = len(how.get('ranking', ()))
    # iterators implemented here
    ni = 0
    for f in G.fns:
        if f['kind'] == 'fn' and f['name'] in NEXT and NEXT_TR.search(f.get('trait') or ''):
            ni += 1
            own_iterator(ctx, f)
    ctx.floor('iterators implemented here', ni, 1)
    # consuming adapters on infinite iterators
    na = 0
    for f in G.fns:
        cr = f['crate']
        for b in f['blocks']:
            c = cg.callee(cr, b['t'])
            if c is None:
                continue
            if re.search(r'(iterator::Iterator|FallibleIterator|collect::Extend)$', c.get('tr') or '') and c['name'] in CONSUME:
                na += 1
                tys = [cr.T[a]['s'] for a in c['args'] if isinstance(a, int)][:1 if c['name'] != 'extend' else 3]
                bad = [s for s in tys if INFINITE.search(s) and not FINITE.search(s)]
                ctx.ob(not bad, 'infinite:%s:%s' % (f['path'], c['name']), ctx.where(f, b['t'].get('ln')),
                       '%s is run on an infinite iterator (%s)' % (c['name'], (bad or [''])[0][:100]))
            n = cg.cname(c)
            if n.startswith('binrw::helpers::until'):
                t = [cr.T[a] for a in c.get('args', ()) if isinstance(a, int)]
                E = engine.Engine(ctx.crates)
                el = [x for x in t if x['k'] in ('int', 'float') or x['k'] == 'adt' and x['path'] in cr.adts]
                ok = bool(el) and all(x['k'] != 'adt' or E.strict(cr.by_path.get(
                    '<%s as binrw::binread::BinRead>::read_options' % x['path'], {'key': None, 'blocks': [], 'crate': cr}))
                    for x in el)
                ctx.ob(ok, 'until:%s' % f['path'], ctx.where(f, b['t'].get('ln')),
                       'elements that may take no bytes are read until the stream ends')
    ctx.floor('consuming adapters', na, 20)


def owner(f):
    """the function a closure is written in"""
    g = f['crate'].by_path.get(re.sub(r'(::\{closure#\d+\})+$', '', f['path']))
    return g or f


def bounded_range(ctx, f):
    """every 64-bit range that a loop of f runs over ends at a length, a field or a small constant"""
    E = engine.Engine(ctx.crates)
    E.cr = f['crate']
    res = []

    def loop(E_, k, head, fr, back, b):
        if k != f['key']:
            return
        for r, v in head.mem.items():
            if v is None or v[0] != 'st':
                continue
            t = f['crate'].T[v[1]] if isinstance(v[1], int) else {}
            if not str(t.get('path', '')).startswith('core::ops::range::Range'):
                continue
            d = dict(v[3])
            if 'end' not in d or d['end'] is None or d['end'][0] != 'i':
                res.append(False)
                continue
            end = d['end'][1]
            others = [l for (r2, p), l in allleaves(head).items() if r2 != r and (p and p[-1] == 'len' or r2[0] == 'o')]
            seqs = [l for l in lens(E_, head)]
            ok = head.F.entails(K(2 ** 33).sub(end)) or any(head.F.entails(l.sub(end)) for l in others + seqs)
            res.append(ok)
    E.hooks['loop'] = loop
    E.analyse(owner(f))
    E.run_created()
    if res and all(res):
        return True, 'a range with a proved end'
    return False, 'the end of the range is not bounded by a length or a constant'


def lens(E, st):
    """the lengths and integer fields of everything the arguments refer to"""
    out = []
    for r, v in list(st.mem.items()):
        if v is not None and v[0] == 'ref':
            x = E.load(st, E.cr, v[1], v[2])
            if x is not None and x[0] == 'seq':
                out.append(x[2])
            ti = v[1][2] if v[1][0] == 'o' and len(v[1]) > 2 else None
            t = E.cr.T[ti] if isinstance(ti, int) else None
            a = E.cr.adts.get(t.get('path')) if t else None
            if a and a['kind'] == 'struct' and not v[2]:
                for fd in a['variants'][0]['f']:
                    if E.cr.T[fd['t']]['k'] == 'int':
                        y = E.load(st, E.cr, v[1], (('f', fd['n'], fd['t']),))
                        if y is not None and y[0] == 'i':
                            out.append(y[1])
    return out


def own_iterator(ctx, f):
    """whenever next answers with an item, a length has shrunk or an integer has moved towards a bound"""
    cr = f['crate']
    E = engine.Engine(ctx.crates)
    E.cr = cr
    keep = {}

    def init(E_, st, fr, j, ti):
        if j == 0:
            keep['v'] = E_.fresh(cr, ('self',), ti)
            return keep['v']

    try:
        sts, fr = E.paths(f, init)
    except engine.Unsupported as e:
        ctx.ob(False, 'iterator:' + f['path'], ctx.where(f), 'can not be decided: %s' % e)
        return
    root = keep['v'][1]
    adt = ctx.need(cr.adts.get(cr.T[root[2]].get('path')), 'type of the iterator ' + f['path'])
    st0 = engine.State()

    def obs(st):
        out = {}
        for fd in adt['variants'][0]['f']:
            x = E.load(st, cr, root, (('f', fd['n'], fd['t']),))
            n = 0
            while x is not None and x[0] == 'ref' and n < 4:
                x = E.load(st, cr, x[1], x[2])
                n += 1
            for p, l in leaves(x):
                if hasattr(l, 'sub'):
                    out[(fd['n'],) + p] = l
        return out
    old = obs(st0)
    items = []
    for st in sts:
        v = st.mem.get((fr.id, 0))
        some = can_be_item(E, cr, st, v)
        if some:
            items.append((st, obs(st)))
    ok = None
    for k, l in old.items():
        if k[-1] == 'len' or True:
            if all(k in o and s.F.entails(l.sub(o[k]).addc(-1)) and s.F.entails(o[k]) for s, o in items):
                ok = 'shrinks ' + '.'.join(map(str, k))
                break
    ctx.ob(bool(items) and ok is not None, 'iterator:' + f['path'], ctx.where(f),
           'next can answer with an item without any length or integer of the iterator getting smaller',
           '%s: every one of %d paths that answers with an item %s' % (f['path'], len(items), ok))


def can_be_item(E, cr, st, v):
    """may the returned value be (Ok of) Some"""
    if v is None or v[0] != 'en':
        return True
    t = cr.T[v[1]]
    vs = st.vars.get(v[2])
    if t.get('path') == 'core::result::Result':
        if vs is not None and 0 not in vs:
            return False
        x = E.payload(cr, v, 0, '0')
        return can_be_item(E, cr, st, x)
    if t.get('path') == 'core::option::Option':
        return vs is None or 1 in vs
    return True
