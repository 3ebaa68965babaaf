"""Panic freedom, shared by the rules on reading (C01), printing (C02), writing (C03) and the command line tool (C04).

Every function of the crate is an entry (with arbitrary arguments, private functions only if no entry inlines them). Every
reachable MIR assertion (overflow, division, bounds), every call to a function of the standard library or of a dependency
that can panic (unwrap, expect, indexing, slicing, copy_from_slice, ...) and every diverging call is an obligation."""
import re
import engine

FMT = ('core::fmt::Debug', 'core::fmt::Display', 'core::fmt::LowerHex', 'core::fmt::UpperHex', 'core::fmt::Binary')
WRITE_TRAITS = ('binrw::binwrite::BinWrite', 'serde_core::ser::Serialize', 'std::io::Write', 'core::io::write::Write',
                'core::io::Write')
WRITE_NAME = re.compile(r'(^|_)(write|flush|close|serialize|allocate|insert|set|with|mark|push|new|empty|encode|encrypt|'
                        r'heap|required|padding|aligned|align|size|checksum|calculate)')


def parent_fn(L, f):
    """the function a closure belongs to"""
    k = f['key']
    while '::{closure#' in k:
        k = k[:k.rindex('::{closure#')]
        if k in L.by_key:
            g = L.by_key[k]
            if g['kind'] != 'closure':
                return g
    return L.by_key.get(k, f)


def bucket(L, f):
    """the properties a function can be an entry of"""
    g = parent_fn(L, f) if f['kind'] == 'closure' else f
    tr = g.get('trait') or ''
    if tr in FMT:
        return {'C02'}
    if tr in WRITE_TRAITS or tr.endswith(('::Write', '::Serialize', '::BinWrite')):
        return {'C03'}
    if tr.endswith('::Seek'):
        return {'C01', 'C03'}
    if tr.endswith(('::BinRead', '::Read')) or 'Deserialize' in tr or 'Visitor' in tr:
        return {'C01'}
    if WRITE_NAME.search(g.get('name') or ''):
        return {'C01', 'C03'} if re.search(r'(^|_)(new|empty|size|calculate|align)', g['name']) else {'C03'}
    return {'C01'}


def infer_invariants(L, crates):
    """private unsigned fields that are at least 1 in every value that is ever built: assume it, check every place that
    builds the type, drop what is not confirmed, until nothing changes"""
    cand = {}
    for p, a in L.adts.items():
        if a['kind'] != 'struct' or not a.get('local', True):
            continue
        for j, fd in enumerate(a['variants'][0]['f']):
            t = L.T[fd['t']]
            if t['k'] == 'int' and not t['signed'] and not fd.get('pub', True):
                cand[(p, fd['n'])] = (j, fd['t'])
    if not cand:
        return {}
    builders = {}
    for f in L.fns:
        if 'blocks' not in f:
            continue
        for b in f['blocks']:
            for s in b['s']:
                rv = s.get('rv') or {}
                if rv.get('ak') == 'adt' and any(k[0] == rv['path'] for k in cand):
                    builders.setdefault(rv['path'], []).append(f)
                # direct writes to / mutable borrows of the field
                for pl in ([s['pl']] if 'pl' in s else []) + ([rv['pl']] if rv.get('k') == 'ref' and rv.get('mut') else []):
                    pr = pl.get('p') or []
                    if pr and isinstance(pr[-1], dict) and 'f' in pr[-1]:
                        for k, (j, ti) in list(cand.items()):
                            if j == pr[-1]['f'] and ti == pr[-1].get('t') and \
                                    any(k[0] in L.T[l['t']]['s'] for l in f['locals']):
                                del cand[k]
    cand = {k: v for k, v in cand.items() if builders.get(k[0])}
    while cand:
        E = engine.Engine(crates)
        E.invariants = {k: (1, engine.INF) for k in cand}
        bad = set()

        def agg(E_, key, st, fr, data, site):
            for k in cand:
                if key[0] == k[0]:
                    v = data.get(k[1])
                    if v is None or v[0] != 'i' or not st.F.entails(v[1].addc(-1)):
                        bad.add(k)
        E.hooks['agg'] = agg
        for p in sorted({k[0] for k in cand}):
            for f in builders[p]:
                E.analyse(parent_fn(L, f) if f['kind'] == 'closure' else f)
                if f['key'] not in E.visited:
                    E.run_created()
                    if f['key'] not in E.visited:
                        E.analyse(f)
        if not bad:
            return {k: (1, engine.INF) for k in cand}
        for k in bad:
            del cand[k]
    return {}


# traits whose implementations are never inlined: each is an entry of the rule for its trait
OWN = re.compile(r'(::BinRead|::BinWrite|::Debug|::Display|::Serialize|::Deserialize)$')


def direct_callees(L):
    """functions that another function of the crate calls by name (they are analysed where they are called)"""
    res = set()
    for f in L.fns:
        for b in f.get('blocks', ()):
            t = b['t']
            if t['k'] == 'call' and 'k' in t['f']:
                c = L.T[t['f']['k']['t']].get('callee') or {}
                k = c.get('rk') or c.get('pk')
                if k and k != f['key']:
                    res.add(k)
    return res


def exempt(L, f):
    """entries with a documented precondition: they are only checked where the crate itself calls them"""
    p, n = f['path'], f.get('name') or ''
    if re.search(r'Bin(Read|Write)ArgBuilder::<', p) and n == 'finalize':
        return 'generated by binrw: the typestate parameters say which fields were given'
    m = re.match(r'(.*)::(set|with)_(\w+)$', p)
    if m and '%s::set_%s_checked' % (m.group(1), m.group(3)) in L.by_path:
        return 'generated by modular-bitfield: documented to panic for values that do not fit, has a _checked twin'
    if f.get('trait') == 'pdb::PageHeapObject':
        return 'not used by the library outside of tests'
    if p == 'pdb::bitfields::PackedRowCounts::from_all_valid':
        return 'documented panic; the precondition is checked at every call'
    if p == 'util::align_by':
        return 'const helper for literal alignments; checked at every call'
    return None


# constructs inside one function that no fact of this analysis can describe
TRUSTED = {
    ('util::ArrayPolyfills', 'zip_polyfill'): 'every element of both arrays is filled before the loop and taken once per index',
}


def trusted(L, fpath, what):
    for (tr, n), why in TRUSTED.items():
        if tr in fpath and ('>::' + n) in fpath:
            return why
    return None


def run(ctx, pid, floor_entries, floor_obligations):
    L = ctx.lib
    inv = infer_invariants(L, ctx.crates)
    E = engine.Engine(ctx.crates)
    E.invariants = inv
    mine = [f for f in L.fns if 'blocks' in f and f['kind'] == 'fn' and pid in bucket(L, f)]
    done, failed = set(), []
    skipped = {}
    called = direct_callees(L)

    def go(f):
        done.add(f['key'])
        w = exempt(L, f)
        if w:
            skipped[f['path']] = w
            return
        E.analyse(f)
    for f in sorted((f for f in mine if f['reach']), key=lambda f: f['path']):
        go(f)
    E.run_created()
    nreach = len(done) - len(skipped)
    while True:
        todo = [L.by_key[k] for k in sorted(E.uninlined) if k in L.by_key and k not in done]
        todo = [f for f in todo if pid in bucket(L, f) or not OWN.search(f.get('trait') or '')]
        if not todo:
            todo = [f for f in mine if f['key'] not in E.visited and f['key'] not in done and f['key'] not in called][:1]
        if not todo:
            break
        for f in todo:
            go(f)
        E.run_created()
    skip_keys = {L.by_path[p]['key'] for p in skipped if p in L.by_path}
    for f in L.fns:
        if f['kind'] == 'closure' and 'blocks' in f and f['key'] not in E.visited and pid in bucket(L, f) and \
                parent_fn(L, f)['key'] not in skip_keys:
            E.analyse(f)
            E.run_created()
    report(ctx, E, L)
    ctx.floor('entry functions', nreach, floor_entries)
    ctx.floor('panic obligations', len(E.ob), floor_obligations)
    ctx.cov['functions analysed'] = len(E.visited)
    ctx.cov['entries with a documented precondition (checked at their call sites only)'] = \
        '%d: %s' % (len(skipped), '; '.join(sorted(set(skipped.values()))))
    ctx.cov['inferred type invariants'] = ['%s.%s >= %d' % (k[0], k[1], v[0]) for k, v in sorted(inv.items())]
    return E


def report(ctx, E, L, trust=True):
    agg = {}
    for o in E.ob.values():
        agg.setdefault((o.fn, o.kind, o.what), []).append(o)
    nt = 0
    for (fn, kind, what), os in sorted(agg.items(), key=str):
        for o in os:
            w = trusted(L, fn, what) if trust and not o.ok else None
            if w:
                nt += 1
                ctx.assumptions.append('%s (%s): %s' % (fn, what, w))
                continue
            chain = ' <- '.join(c[0] for c in reversed(o.chain[-4:])) if o.chain else ''
            ctx.ob(o.ok, 'panic:%s:%s:%s' % (fn, kind, what), '%s:%s (%s)' % (o.file, o.ln, fn),
                   '%s %s can fail for some input (reached from %s)' % (kind, what, chain),
                   '%s:%s %s in %s' % (o.file, o.ln, what, fn) if o.kind != 'call' else None)
    ctx.assumptions = list(dict.fromkeys(ctx.assumptions))
    ctx.cov['trusted obligations'] = nt
