"""For every table type the reader builds exactly one kind of row, and the typed accessors of that row kind answer for
exactly that kind. The abstract interpreter runs the row readers once per table type (the type fixed, everything else
unknown) and records which row variants can be built; it runs both typed accessors of every row type once per row
variant and records whether they can answer Some/None."""
import engine

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the MIR of readers and accessors, enumerated over all table types and row kinds'
NOTE = ('Every table type x reader and every row kind x accessor is decided for all inputs; trusts the abstract interpreter '
        'and its models of std/binrw.')
ASSUMPTIONS = ['binrw calls the generated readers with the arguments written in the attributes (the generated code is '
               'what is analysed)']


def variant_names(a):
    return [v['n'] for v in a['variants']]


def run(ctx):
    L = ctx.lib
    E = engine.Engine(ctx.crates)
    row = ctx.adt('pdb::Row')
    ptype = ctx.adt('pdb::PageType')
    rfn = ctx.fn('<pdb::Row as binrw::binread::BinRead>::read_options')
    impls = [i for i in L.impls if i.get('trait') == 'pdb::RowVariant']
    ctx.floor('row types with typed accessors', len(impls), 15)

    # ---- the leaf enums: Row variant -> (enum of its payload, per leaf variant its payload type)
    leaves = {}
    for vi, v in enumerate(row['variants']):
        if not v['f']:
            leaves[(vi, None)] = None
            continue
        t = L.T[v['f'][0]['t']]
        sub = L.adts.get(t.get('path'))
        if sub is None or sub['kind'] != 'enum':
            leaves[(vi, None)] = v['f'][0]['t']
            continue
        for si, sv in enumerate(sub['variants']):
            leaves[(vi, si)] = sv['f'][0]['t'] if sv['f'] else None
    ctx.floor('row variants', len(leaves), 18)

    def mkrow(st, leaf, ti):
        vi, si = leaf
        f = row['variants'][vi]['f']
        fields = []
        if f and si is not None:
            it = f[0]['t']
            sf = L.adts[L.T[it]['path']]['variants'][si]['f']
            inner = E.new_enum(st, it, ('rowi', leaf), si,
                               [(x['n'], E.fresh(L, ('rowp', leaf, x['n']), x['t'])) for x in sf])
            fields = [(f[0]['n'], inner)]
        elif f:
            fields = [(f[0]['n'], E.fresh(L, ('rowp', leaf), f[0]['t']))]
        return E.new_enum(st, ti, ('row', leaf), vi, fields)

    # ---- the readers
    def mkptype(st, ti, vi, si):
        f = ptype['variants'][vi]['f']
        fields = []
        if f and si is not None:
            fields = [(f[0]['n'], E.new_enum(st, f[0]['t'], ('pti', vi, si), si, []))]
        return E.new_enum(st, ti, ('pt', vi, si), vi, fields)

    def read_case(fn, mk, label):
        """variants of local enums that can be built, and the nested readers that are reached with their arguments"""
        built, nested = set(), []

        def agg(E_, key, st, fr, data, site):
            built.add(key)

        def call(E_, key, st, fr, data, site):
            if key.endswith('BinRead>::read_options') and key != fn['path']:
                nested.append((key, data[1], st.copy()))
        E.hooks['agg'], E.hooks['call'] = agg, call

        def init(E_, st, fr, j, ti):
            t = L.T[ti]
            if t['k'] == 'tuple' and len(t['ts']) == 1:
                return ('st', ti, ('ia',), ((0, mk(st, t['ts'][0])),))
            return None
        try:
            E.analyse(fn, init, label=label)
        finally:
            E.hooks.pop('agg'), E.hooks.pop('call')
        return built, nested

    reach = {}     # (page type variant, sub) -> set of (row variant, sub)
    for pvi, pv in enumerate(ptype['variants']):
        f = pv['f']
        st_t = L.T[f[0]['t']] if f else None
        sub = L.adts.get(st_t.get('path')) if st_t else None
        subs = list(range(len(sub['variants']))) if sub and sub['kind'] == 'enum' else [None]
        for si in subs:
            name = pv['n'] + ('::' + sub['variants'][si]['n'] if si is not None else '')
            built, nested = read_case(rfn, lambda st, ti: mkptype(st, ti, pvi, si), ('pt', pvi, si))
            tops = {k[1] for k in built if k[0] == 'pdb::Row'}
            got = set()
            for tn in tops:
                vi = variant_names(row).index(tn)
                rf = row['variants'][vi]['f']
                if not rf:
                    got.add((vi, None))
                    continue
                it = L.T[rf[0]['t']]
                # the nested reader must receive the page type's own sub-type
                nn = [x for x in nested if x[0].startswith('<%s as ' % it.get('path'))]
                if not nn:
                    ctx.viol('nested:' + name, ctx.where(rfn), 'no nested reader was found for %s' % tn)
                for (_, args, st) in nn:
                    tup = args[2][0]
                    a0 = E.field(L, tup, 0, f[0]['t']) if tup is not None and tup[0] == 'st' else None
                    vs = st.vars.get(a0[3]) if a0 is not None and a0[0] == 'en' else None
                    ctx.ob(vs == frozenset((si,)), 'nestedarg:' + name, ctx.where(rfn),
                           'the reader of %s rows is not given the sub-type of the page (%s)' % (tn, vs))
                sa = L.adts.get(it.get('path'))
                sfn = ctx.fn('<%s as binrw::binread::BinRead>::read_options' % it.get('path'))
                key = (it['path'], si)
                b2, _ = read_case(sfn, lambda st, ti: E.new_enum(st, ti, ('leaf', si), si, []), ('leaf', it['path'], si))
                for (p, vn) in b2:
                    if p == it['path']:
                        got.add((vi, variant_names(sa).index(vn)))
            reach[(pvi, si)] = got
            disp = sorted(leafname(L, row, g) for g in got)
            ctx.ob(len(got) == 1, 'reader:' + name, ctx.where(rfn),
                   'pages of type %s are read as %s' % (name, disp or 'nothing'), 'page type %s -> %s' % (name, disp))
    # injective: apart from rows of unknown format, no row kind is read from two page types
    back = {}
    for pt, got in reach.items():
        for g in got:
            back.setdefault(g, []).append(pt)
    for g, pts in back.items():
        if leaves.get(g) is None and g[1] is None:
            continue
        payload_unit = leaves.get(g) is None
        if payload_unit:
            continue
        ctx.ob(len(pts) == 1, 'shared:' + leafname(L, row, g), ctx.where(rfn),
               'rows of kind %s are read from several page types' % leafname(L, row, g))

    # ---- the accessors
    for im in impls:
        s = im['self']
        nm = L.ts(s)
        leaf = [k for k, v in leaves.items() if v is not None and L.ts(v) == nm]
        if not ctx.ob(len(leaf) == 1, 'leaf:' + nm, 'src/pdb', 'row type %s is the payload of %d row variants' % (nm, len(leaf))):
            continue
        leaf = leaf[0]
        cf = ctx.fn('<%s as pdb::RowVariant>::PAGE_TYPE' % nm)
        ds = ctx.need(cf.get('value', {}).get('ds'), 'value of %s' % cf['path'])
        pt = (ds['vi'], ds['f'][0]['vi'] if ds['f'] and 'vi' in ds['f'][0] else None)
        ctx.ob(reach.get(pt) == {leaf}, 'pagetype:' + nm, ctx.where(cf),
               '%s claims page type %s, whose pages are read as %s' %
               (nm, ptname(L, ptype, pt), sorted(leafname(L, row, g) for g in reach.get(pt, ()))),
               '%s::PAGE_TYPE = %s' % (nm, ptname(L, ptype, pt)))
        for m in ('from_row', 'from_row_mut'):
            f = ctx.fn('<%s as pdb::RowVariant>::%s' % (nm, m))
            for lf in leaves:
                def init(E_, st, fr, j, ti):
                    t = L.T[ti]
                    root = ('o', ('rowroot', lf), t['t'])
                    st.mem[root] = mkrow(st, lf, t['t'])
                    return ('ref', root, (), t['mut'])
                st, fr = E.analyse(f, init, label=('acc', m, lf))
                if st is None:
                    ctx.ob(False, '%s:%s' % (m, nm), ctx.where(f), 'the accessor never returns for %s' % leafname(L, row, lf))
                    continue
                v = st.mem.get((fr.id, 0))
                vs = st.vars.get(v[2]) if v is not None and v[0] == 'en' else None
                want = frozenset((1,)) if lf == leaf else frozenset((0,))
                ctx.ob(vs == want, '%s:%s:%s' % (m, nm, leafname(L, row, lf)), ctx.where(f),
                       '%s on a %s row %s' % (f['path'], leafname(L, row, lf),
                                              'does not always answer' if lf == leaf else 'does not answer None'))
    ctx.cov['page types'] = len(reach)


def leafname(L, row, g):
    vi, si = g
    v = row['variants'][vi]
    if si is None:
        return v['n']
    return v['n'] + '::' + L.adts[L.T[v['f'][0]['t']]['path']]['variants'][si]['n']


def ptname(L, ptype, pt):
    return leafname(L, ptype, pt)
