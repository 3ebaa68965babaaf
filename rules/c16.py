"""Every setting of every *SETTING.DAT file of a device is loaded from that file, decoded as the type that file has, into
the field of the same name, and shown under its own label.  load_settings is walked path by path, with files that can and
can not be read: each public field of the payload of each file must end up, unchanged, in the field of that name exactly when
the file was read, from PIONEER/<NAME>.DAT where <NAME> is the name of the setting type.  Settings::fmt is walked with each
field present and absent: each line carries the label and the value of the same field.  Different values of a setting are
shown as different texts."""
import json
import os
import re
import engine
import terms

LEVEL = 'proof'
TECHNIQUE = 'path-sensitive abstract interpretation of the MIR with terms for strings, paths, files and formatted output'
NOTE = 'All fields of the four kinds of settings; all paths of loading (which files exist) and of printing (which are present).'
ASSUMPTIONS = ['std::fs::File::open opens the path it is given; a reader that is given a setting type answers with data of '
               'that type (checked on the reader of SettingData)']
KINDS = ('DevSetting', 'DJMMySetting', 'MySetting', 'MySetting2')


def norm(s):
    return re.sub(r'[^a-z0-9]', '', s.lower())


def data_variant(ctx, E, tname):
    """the variants of SettingData that its reader answers with when it is given a setting type"""
    L = ctx.lib
    f = ctx.fn('<setting::SettingData as binrw::binread::BinRead>::read_options')
    st_ = ctx.adt('setting::SettingType')
    vi = [v['n'] for v in st_['variants']].index(tname)
    built = set()

    def agg(E_, key, st, fr, data, site):
        if key[0] == 'setting::SettingData':
            built.add(key[1])

    def init(E_, st, fr, j, ti):
        t = L.T[ti]
        if t['k'] == 'tuple' and len(t['ts']) == 1:
            return ('st', ti, ('ia',), ((0, E_.new_enum(st, t['ts'][0], ('stt', vi), vi, [])),))
        return None
    E.hooks['agg'] = agg
    try:
        E.analyse(f, init, label=('c16', vi))
    finally:
        E.hooks.pop('agg')
    return built


def run(ctx):
    L = ctx.lib
    loading(ctx, L)
    showing(ctx, L)
    values(ctx, L)


def loading(ctx, L):
    stype = ctx.adt('setting::SettingType')
    sdata = ctx.adt('setting::SettingData')
    names = [v['n'] for v in stype['variants']]
    dnames = [v['n'] for v in sdata['variants']]
    E0 = engine.Engine(ctx.crates)
    dv = {}
    rd = ctx.fn('<setting::SettingData as binrw::binread::BinRead>::read_options')
    for n in names:
        b = data_variant(ctx, E0, n)
        if ctx.ob(b == {n}, 'datatype:' + n, ctx.where(rd), 'a file of type %s is read as %s' % (n, sorted(b)),
                  'type %s is read as %s' % (n, sorted(b))):
            dv[n] = dnames.index(n)
    fns = [f for f in L.fns if f.get('name') == 'load_settings' and f.get('pub') and 'blocks' in f]
    f = ctx.need(fns, 'function load_settings')[0]
    T = terms.Terms(ctx.crates)
    E = T.E
    E.cr = L
    reads = {}

    def read(fr, st, name, callee, args, site, dty, t):
        if 'std::fs::' in name or 'std::path::Path::' in name and name.rsplit('::', 1)[-1] in ('exists', 'is_file', 'try_exists', 'metadata'):
            for a, _ in args:
                for x in terms.lits(T.term(st, a)):
                    st.mem[('asked', x)] = ('fn', True)
            return None
        if 'binread' not in name or not isinstance(dty, int) or \
                not re.match(r'core::result::Result<setting::Setting, ', L.T[dty]['s']):
            return None
        ty = [x for a, _ in args for x in stypes(E, T, st, a)]
        src = [T.term(st, a) for a, _ in args]
        key = ('setting', tuple(sorted(set(terms.lits(tuple(src))))), ty[0] if len(ty) == 1 else None)
        reads[key] = (f, t.get('ln'))
        out = []
        for vi in (0, 1):
            s = st.copy()
            v = T.make(key, dty)
            if not E.assume(s, ('isv', v[2], (vi,), (0, 1))):
                continue
            if vi == 0 and key[2] in dv:
                d = E.field(L, E.payload(L, v, 0, '0'), 'data', None)
                E.refine(s, d[2], frozenset((dv[key[2]],)))
            out.append((s, v))
        return out
    T.first.append(read)
    sts, fr = E.paths(f, None, 'c16')
    ctx.floor('paths through load_settings', len(sts), 1)
    seen = set()
    for k, (g, ln) in reads.items():
        ctx.ob(k[2] is not None, 'type:' + '/'.join(k[1]), ctx.where(g, ln), 'the type a file is read as is not known')
        if k[2] is not None:
            want = {'PIONEER', k[2].upper() + '.DAT'}
            seen.add(k[2])
            ctx.ob(set(k[1]) == want, 'file:' + k[2], ctx.where(g, ln),
                   'settings of type %s are read from %s' % (k[2], '/'.join(k[1])), '%s <- %s' % (k[2], '/'.join(k[1])))
    ctx.ob(len(reads) == len(seen), 'twice', ctx.where(f), 'a setting file is read more than once')
    for n in names:
        ctx.ob(n in seen, 'unread:' + n, ctx.where(f), 'no file of type %s is read' % n)
    sett = ctx.adt('device::Settings')
    fields = {x['n']: x['t'] for x in sett['variants'][0]['f']}
    owner = {}
    for n in names:
        a = L.adts[L.T[sdata['variants'][dnames.index(n)]['f'][0]['t']]['path']]
        for x in a['variants'][0]['f']:
            if x.get('pub', True) and not x['n'].startswith('unknown'):
                if ctx.ob(x['n'] in fields, 'missing:' + x['n'], ctx.where(f), 'the setting %s of %s is not loaded at all' % (x['n'], n)):
                    owner[x['n']] = n
    for x in fields:
        ctx.ob(x in owner, 'unowned:' + x, ctx.where(f), 'the setting %s comes from no file' % x)
    ctx.floor('settings loaded', len(owner), 46)
    for st in sts:
        res = st.mem.get((fr.id, 0))
        for x, n in owner.items():
            ks = [k for k in reads if k[2] == n]
            if len(ks) != 1:
                continue
            v = T.make(ks[0], result_ty(L))
            vs = st.vars.get(v[2])
            got = E.field(L, res, x, fields[x])
            if vs == frozenset((0,)):
                d = E.field(L, E.payload(L, v, 0, '0'), 'data', None)
                p = E.payload(L, d, dv[n], '0') if n in dv else None
                want = E.field(L, p, x, None) if p is not None else None
                gv = st.vars.get(got[2]) if got[0] == 'en' else None
                ok = gv == frozenset((1,)) and want is not None and same(st, E.payload(L, got, 1, '0'), want)
                ctx.ob(ok, 'load:' + x, ctx.where(f), 'the setting %s is not what the %s file says' % (x, n.upper()))
            else:
                ctx.ob(('asked', n.upper() + '.DAT') in st.mem, 'skipped:' + n, ctx.where(f),
                       'there are cases in which the %s file is not read although it may be there' % n.upper())
                gv = st.vars.get(got[2]) if got[0] == 'en' else None
                ctx.ob(gv == frozenset((0,)), 'absent:' + x, ctx.where(f),
                       'the setting %s is present although the %s file could not be read' % (x, n.upper()))


def same(st, a, b):
    if a is None or b is None or a[0] != b[0]:
        return False
    if a == b:
        return True
    if a[0] == 'en':
        return a[2] == b[2] or a[3] is not None and a[3] == b[3] and not a[4] and not b[4]
    return False


def result_ty(L):
    return [i for i, t in enumerate(L.T) if re.match(r'core::result::Result<setting::Setting, binrw::error::Error>$', t['s'])][0]


def stypes(E, T, st, v, d=0):
    """the known setting types in an argument"""
    v = T.deref(st, v)
    if v is None or d > 3:
        return []
    if v[0] == 'en' and v[1] is not None and E.cr.T[v[1]].get('path') == 'setting::SettingType':
        vs = st.vars.get(v[2])
        return [T.variant(v[1], next(iter(vs)))] if vs is not None and len(vs) == 1 else [None]
    if v[0] == 'st':
        return [x for _, y in v[3] for x in stypes(E, T, st, y, d + 1)]
    return []


def showing(ctx, L):
    f = ctx.fn('<device::Settings as core::fmt::Display>::fmt')
    sett = ctx.adt('device::Settings')
    fs = [(x['n'], x['t']) for x in sett['variants'][0]['f']]
    sets = [('all', {n for n, _ in fs}), ('none', set())] + [(n, {n}) for n, _ in fs]
    lines_all = 0
    for label, some in sets:
        T = terms.Terms(ctx.crates)
        E = T.E
        E.cr = L
        BUF = ('out', 0)

        def out(fr, st, name, callee, args, site, dty, t):
            if not name.startswith('core::fmt::Formatter') or len(args) < 2:
                return None
            m = name.rsplit('::', 1)[-1]
            if m not in ('write_fmt', 'write_str', 'write_char'):
                return None
            x = T.term(st, args[1][0])
            x = x[1:] if x[0] == 'fmt' else (x,)
            res = []
            v = T.make(('wrote', site), dty)
            for vi in (0, 1):
                s = st.copy()
                if E.assume(s, ('isv', v[2], (vi,), (0, 1))):
                    if vi == 0:
                        s.mem[BUF] = ('tr', s.mem[BUF][1] + tuple(x))
                    res.append((s, v))
            return res
        T.first.append(out)
        keys = {}

        def init(E_, st, fr, j, ti):
            if j == 0:
                st.mem[BUF] = ('tr', ())
                root = ('o', ('settings', label), L.T[ti]['t'])
                vals = []
                for n, t in fs:
                    vi = 1 if n in some else 0
                    p = [('0', E_.fresh(L, ('setting', n), L.T[t]['args'][0]))] if vi else []
                    vals.append((n, E_.new_enum(st, t, ('opt', n), vi, p)))
                    keys[n] = T.term(st, p[0][1]) if vi else None
                st.mem[root] = ('st', L.T[ti]['t'], ('sv',), tuple(vals))
                return ('ref', root, (), False)
            return None
        sts, fr = E.paths(f, init, ('c16', label))
        good = [s for s in sts if not E.fails(L, s, s.mem.get((fr.id, 0)))]
        ctx.ob(len(good) == 1, 'show:paths', ctx.where(f), 'printing the settings ends in %d ways' % len(good))
        for s in good:
            done = set()
            cur = ''
            lines = []
            part = None
            for p in s.mem[BUF][1] + (('lit', '\n'),):
                if p[0] == 'lit':
                    ls = p[1].split('\n')
                    for k, seg in enumerate(ls):
                        cur += seg
                        if k + 1 < len(ls):
                            if cur or part is not None:
                                lines.append((cur, part))
                            cur, part = '', None
                else:
                    part = p if part is None else ('?', part, p)
            for text, p in lines:
                lab = text.split(':')[0]
                txt = text.split(':', 1)[1].strip() if ':' in text else ''
                n = [x for x, _ in fs if norm(x) == norm(lab)]
                if not ctx.ob(len(n) == 1, 'label:' + lab.strip(), ctx.where(f), 'the line "%s" names no setting' % text):
                    continue
                n = n[0]
                ctx.ob(n not in done, 'again:' + n, ctx.where(f), 'the setting %s is shown twice' % n)
                done.add(n)
                if n in some:
                    sh = shown(p)
                    ok = sh is not None and sh == keys[n] and txt == ''
                    ctx.ob(ok, 'shown:' + n, ctx.where(f), 'the line "%s" shows %s' % (lab.strip(), describe(p, keys)))
                else:
                    ok = p is not None and lit(p) == '<missing>' or p is None and txt == '<missing>'
                    ctx.ob(ok, 'missing-shown:' + n, ctx.where(f), 'the line "%s" of an absent setting shows %s' % (lab.strip(), describe(p, keys)))
            if label == 'all':
                lines_all = len(lines)
            for n, _ in fs:
                ctx.ob(n in done, 'unshown:' + n, ctx.where(f), 'the setting %s is not shown' % n)
    ctx.floor('lines of settings', lines_all, 46)


def shown(p):
    """what a piece of output displays: the term of a value shown with Display, possibly made a string before"""
    if p is None or p[0] != 'show' or p[1] != 'display' or p[2]:
        return None
    x = p[3]
    while isinstance(x, tuple) and len(x) == 2 and x[0] == 'shown':
        x = x[1]
    while isinstance(x, tuple) and len(x) == 2 and x[0] == 'fmt':
        return shown(x[1])
    return x


def lit(p):
    x = p[3] if p[0] == 'show' else None
    while isinstance(x, tuple) and len(x) == 2 and x[0] in ('shown', 'fmt'):
        x = x[1]
    return x[1] if isinstance(x, tuple) and len(x) == 2 and x[0] == 'lit' else None


def describe(p, keys):
    if p is None:
        return 'nothing'
    x = shown(p)
    for n, k in keys.items():
        if k is not None and k == x:
            return n
    return str(x if x is not None else p)[:100]


def values(ctx, L):
    """different values of a setting are shown differently, each as what it is called in the preferences"""
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'names.json')) as fh:
        names = json.load(fh)['names']
    sett = ctx.adt('device::Settings')
    n = named = 0
    for x in sett['variants'][0]['f']:
        et = L.T[x['t']]['args'][0]
        p = L.T[et]['path']
        a = L.adts.get(p)
        f = L.by_path.get('<%s as core::fmt::Display>::fmt' % p)
        if not ctx.ob(a is not None and f is not None and 'blocks' in f, 'display:' + p, 'src/setting.rs', '%s can not be shown' % p):
            continue
        texts = {}
        for vi, v in enumerate(a['variants']):
            tx = text_of(ctx, L, f, et, vi, v)
            n += 1
            if tx is not None:
                texts.setdefault(tx, []).append(v['n'])
                known = names.get(p.rsplit('::', 1)[-1], [])
                want = [y for y in known if y['name'] == v['n']] or [y for y in known if y['code'] == v.get('d')]
                if want:
                    named += 1
                    ctx.ob(plain(tx) == plain(want[0]['shown']), 'named:%s:%s' % (p, v['n']), ctx.where(f),
                           'the value %s of %s is called "%s" and shown as "%s"' % (v['n'], p, want[0]['shown'], tx))
        for tx, vs in texts.items():
            ctx.ob(len(vs) == 1, 'alike:%s:%s' % (p, '+'.join(vs)), ctx.where(f), 'the values %s of %s are both shown as "%s"'
                   % (', '.join(vs), p, tx))
        ctx.ob(sum(map(len, texts.values())) == len(a['variants']), 'text:' + p, ctx.where(f),
               'what is shown for some values of %s is not known' % p)
    ctx.floor('values of settings', n, 150)
    ctx.floor('values of settings whose name is known', named, 150)


def plain(s):
    return ''.join(c for c in s.casefold() if c.isalnum()) if isinstance(s, str) else s


def text_of(ctx, L, f, et, vi, v):
    T = terms.Terms(ctx.crates)
    E = T.E
    E.cr = L
    got = []

    def out(fr, st, name, callee, args, site, dty, t):
        if name.startswith('core::fmt::Formatter') and len(args) >= 2 and name.rsplit('::', 1)[-1] in ('write_fmt', 'write_str', 'pad'):
            got.append(T.term(st, args[1][0]))
        return None
    T.first.append(out)

    def init(E_, st, fr, j, ti):
        if j == 0:
            root = ('o', ('val', vi), et)
            st.mem[root] = E_.new_enum(st, et, ('val', vi), vi, [(y['n'], E_.fresh(L, ('pl', y['n']), y['t'])) for y in v['f']])
            return ('ref', root, (), False)
        return None
    E.analyse(f, init, ('c16v', vi))
    if len(got) != 1:
        return None
    g = got[0]
    ls = terms.lits(g)
    return ''.join(ls) if ls else repr(g)
