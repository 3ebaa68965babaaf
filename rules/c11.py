"""Every reader describes the published format. The reader of each binary structure is walked path by path by the abstract
interpreter; the path's items (type, byte order, constants and magic numbers, ranges it insists on, lengths and padding as
expressions over earlier items, arguments handed to inner readers, adapters) and the field of the result each item ends in
are compared with the committed specification spec/format.json. Also compared: bit positions and widths of bit fields, and
which string of an offset table belongs to which field. Paths that are special cases of others are dropped on both sides;
names of private helpers, of locals and of renamed fields do not matter."""
import json
import os
import re
import cg
import engine
import sig
from rules import c12, c14

LEVEL = 'proof'
TECHNIQUE = 'path-sensitive abstract interpretation of the MIR of every BinRead; wire signatures compared with a format specification'
NOTE = ('All paths of all readers, against spec/format.json: a table made from the documented structures (the pinned tree, '
        'reviewed against the analyses its comments cite). Writers are tied to readers by C12. Loops that walk rows are one item.')
ASSUMPTIONS = ['spec/format.json is the published format', 'models of binrw and std in sa/models.py']
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'format.json')
UNKNOWN = '?'


def layouts(cr):
    """bit fields: struct -> field -> [specifier, first bit], as read and as written"""
    out = {}
    for f in cr.fns:
        m = re.match(r'([\w:]+)::(\w+)_or_err$', f['path'])
        w = re.match(r'([\w:]+)::set_(\w+)_checked$', f['path'])
        if not (m or w) or 'blocks' not in f:
            continue
        for b in f['blocks']:
            t = b['t']
            c = cg.callee(cr, t) if t['k'] == 'call' else None
            if c is None:
                continue
            n = cg.cname(c)
            if n.startswith('modular_bitfield::') and n.split('::')[-1] in ('read_specifier', 'write_specifier') or \
                    re.search(r'::(read|write)_specifier', n):
                sp = [cr.T[a]['s'].split('::')[-1] for a in c['args'] if isinstance(a, int)]
                off = const(f, t['args'][1])
                k = out.setdefault((m or w).group(1), {}).setdefault((m or w).group(2), {})
                k['read' if m else 'write'] = [sp[0] if sp else None, off]
    return out


def const(f, o, n=0):
    """the value of a sum of constants"""
    if 'k' in o:
        return o['k'].get('v')
    p = o.get('m') or o.get('c')
    if p is None or n > 20:
        return None
    ds = [s for b in f['blocks'] for s in b['s'] if s['k'] == '=' and s['pl']['l'] == p['l'] and not s['pl'].get('p')]
    if len(ds) != 1:
        return None
    rv = ds[0]['rv']
    if rv['k'] == 'use':
        return const(f, rv['o'], n + 1)
    if rv['k'] == 'bin' and rv['op'].startswith('Add'):
        a, b = const(f, rv['a'], n + 1), const(f, rv['b'], n + 1)
        return None if a is None or b is None else a + b
    return None


def chase(f, o, n=0):
    """the place an operand was moved, copied or borrowed from"""
    p = o.get('m') or o.get('c')
    return place(f, p, n) if p else None


def place(f, p, n):
    l, pr = p['l'], p.get('p', [])
    if l <= f['argc'] or n > 12:
        return (l, [x for x in pr if x != '*'])
    ds = [s for b in f['blocks'] for s in b['s'] if s['k'] == '=' and s['pl']['l'] == l and not s['pl'].get('p')]
    calls = [b['t'] for b in f['blocks'] if b['t']['k'] == 'call' and b['t']['dst']['l'] == l]
    if len(ds) != 1 or calls:
        return None
    rv = ds[0]['rv']
    if rv['k'] == 'ref':
        r = place(f, rv['pl'], n + 1)
    elif rv['k'] in ('use', 'cast') and 'k' not in rv['o']:
        r = chase(f, rv['o'], n + 1)
    else:
        return None
    return (r[0], r[1] + [x for x in pr if x != '*']) if r else None


def tables(cr):
    """offset tables: type -> {'fields': index -> field, 'items': index -> field}"""
    out = {}
    for f in cr.fns:
        if f.get('trait', '').split('<')[0] != 'pdb::offset_array::OffsetArrayItems' or 'self' not in f or 'blocks' not in f:
            continue
        ty = cr.T[f['self']]['s']
        k = out.setdefault(ty, {})
        for b in f['blocks']:
            for s in b['s']:
                if s['k'] != '=' or s['pl'] != {'l': 0} or s['rv']['k'] != 'agg':
                    continue
                rv = s['rv']
                m = {}
                for i, o in enumerate(rv['os']):
                    r = chase(f, o)
                    x = r[1][0] if r and r[0] == 1 and len(r[1]) == 1 else None
                    if f['name'] == 'as_items' and isinstance(x, dict) and 'n' in x:
                        m[str(i)] = x['n']
                    elif f['name'] == 'from_items' and isinstance(x, dict) and 'ci' in x and not x['ci'][2]:
                        m[str(x['ci'][0])] = rv['fn'][i]
                    elif f['name'] in ('as_items', 'from_items'):
                        m['?%d' % i] = '?'
                k['read' if f['name'] == 'from_items' else 'write'] = m
    return {t: k for t, k in out.items() if any(k.values())}


def build(crates):
    cr = crates['lib']
    R, _ = c12.pairs(cr)
    inh = sig.inherits(crates, R)
    types, bad = {}, {}
    for t in sorted(R):
        try:
            ps, lost = sig.signature(crates, R[t], inh)
            types[t] = ps
            if lost:
                bad[t] = '%d paths can not be followed' % lost
        except engine.Unsupported as e:
            bad[t] = str(e)
    return {'types': types, 'bits': layouts(cr), 'strings': tables(cr)}, bad, R


def same(p, q, ren):
    """does path q of the tree do what path p of the specification says?"""
    return len(p['items']) == len(q['items']) and all(eq(x, y) for x, y in zip(p['items'], q['items'])) and \
        eq(p.get('given', {}), q.get('given', {})) and result(p['result'], q['result'], ren)


def eq(x, y):
    if x == UNKNOWN:
        return True
    if isinstance(x, dict) and isinstance(y, dict):
        return set(x) == set(y) and all(eq(x[k], y[k]) for k in x)
    if isinstance(x, str) and isinstance(y, str) and '?' in x:
        return re.fullmatch('.*'.join(re.escape(s) for s in x.split('?')), y) is not None
    return x == y


def result(r, q, ren):
    if not isinstance(r, dict) or not isinstance(q, dict):
        return eq(r, q)
    if len(r) != len(q):
        return False
    gone, new = sorted(set(r) - set(q)), sorted(set(q) - set(r))
    if any(not eq(r[k], q[k]) for k in r if k in q):
        return False
    for g in gone:          # a field that has another name now: the same item ends in it
        c = [k for k in new if eq(r[g], q[k]) and ren.get(g, k) == k]
        if not c:
            return False
        ren[g] = c[0]
        new.remove(c[0])
    return True


def renames(spec, now):
    """types with another name in the same module and the same signature"""
    ren = {}
    gone = [t for t in spec if t not in now]
    new = [t for t in now if t not in spec]
    for g in gone:
        for k in new:
            if k.rsplit('::', 1)[0] == g.rsplit('::', 1)[0] and len(spec[g]) == len(now[k]):
                s = g.split('<')[0].rsplit('::', 1)[1]
                n = k.split('<')[0].rsplit('::', 1)[1]
                f = lambda x: re.sub(r'\b%s\b' % s, n, x)
                if match(sig.deep(spec[g], f), now[k])[0] == []:
                    ren[s] = n
                    break
    return ren


def match(ps, qs):
    """-> (paths of the specification without a match, paths of the tree without one)"""
    ren = {}
    qs = list(qs)
    miss = []
    for p in ps:
        for q in qs:
            if same(p, q, ren):
                qs.remove(q)
                break
        else:
            miss.append(p)
    return miss, qs


def text(p):
    s = '%s%s => %s' % ('%s ' % json.dumps(p['given']) if p.get('given') else '', ' | '.join(
        ' '.join(str(v) if k == 'type' else '%s=%s' % (k, v) for k, v in d.items()) for d in p['items']), json.dumps(p['result']))
    return s.replace('"', '')


def differ(p, q):
    """the first thing in which two paths differ"""
    for i, (x, y) in enumerate(zip(p['items'], q['items'])):
        if not eq(x, y):
            return i, 'item %d is %s, the format has %s' % (i, json.dumps(y), json.dumps(x))
    if len(p['items']) != len(q['items']):
        return min(len(p['items']), len(q['items'])), '%d items are read, the format has %d' % (len(q['items']), len(p['items']))
    if isinstance(p['result'], dict) and isinstance(q['result'], dict):
        d = sorted(k for k in set(p['result']) | set(q['result']) if not eq(p['result'].get(k), q['result'].get(k)))
        return 900, 'the items end in other fields: %s' % ', '.join('%s = %s (format: %s)' % (k, q['result'].get(k), p['result'].get(k)) for k in d)
    return 999, 'the result is %s, the format has %s' % (q['result'], p['result'])


def run(ctx):
    now, bad, R = build(ctx.crates)
    spec = json.load(open(SPEC))
    for t, m in bad.items():
        ctx.ob(False, 'unsupported:%s' % t, ctx.where(R[t]), 'the reader of %s could not be followed: %s' % (t, m))
    ren = renames(spec['types'], now['types'])
    if ren:
        f = lambda x: re.sub(r'\b(%s)\b' % '|'.join(map(re.escape, ren)), lambda m: ren[m.group(1)], x)
        spec['types'] = {f(t): sig.deep(v, f) for t, v in spec['types'].items()}
        ctx.cov['renamed types'] = ren
    n = 0
    for t, ps in sorted(spec['types'].items()):
        if t in bad:
            continue
        qs = now['types'].get(t)
        if not ctx.ob(qs is not None, 'type:%s' % t, '/repo/src', 'there is no reader for %s any more' % t):
            continue
        miss, extra = match(ps, qs)
        n += len(ps)
        ctx.nob += len(ps) - len(miss)
        ctx.ndis += len(ps) - len(miss)
        for p in miss:
            near = max(((differ(p, q), q) for q in extra), key=lambda x: x[0][0], default=None)
            ctx.ob(False, 'path:%s:%s' % (t, path_key(p)), ctx.where(R[t]), '%s: %s\n  format: %s\n%s' % (
                t, near[0][1] if near else 'a form of it is not read any more', text(p),
                '  read: %s' % text(near[1]) if near else ''))
        for q in extra[len(miss):]:
            ctx.ob(False, 'extra:%s:%s' % (t, path_key(q)), ctx.where(R[t]), '%s: the format has no such form: %s' % (t, text(q)))
        if not miss and not extra:
            ctx.sample('%s: %d form(s) as specified, e.g. %s' % (t, len(ps), text(ps[0])[:160]))
    for t in sorted(set(now['types']) - set(spec['types'])):
        ctx.cov.setdefault('types not in the specification', []).append(t)
    for kind in ('bits', 'strings'):
        for t, fs in sorted(spec[kind].items()):
            cur = now[kind].get(t)
            if not ctx.ob(cur is not None, '%s:%s' % (kind, t), '/repo/src', 'the layout of %s is gone' % t):
                continue
            if kind == 'bits':
                gone, new = set(fs) - set(cur), set(cur) - set(fs)
                for k in sorted(fs):
                    c = cur.get(k)
                    if k in gone:
                        c = next((cur[x] for x in sorted(new) if cur[x] == fs[k]), None)
                    ctx.ob(c == fs[k], 'bits:%s:%s' % (t, k), t, 'bits of %s.%s: %s, the format has %s' % (t, k, c, fs[k]))
                continue
            for way in ('read', 'write'):
                a, b = fs.get(way, {}), cur.get(way, {})
                names = set(a.values())
                r = {}
                for i in sorted(a, key=str):
                    ok = b.get(i) == a[i] or b.get(i) is not None and b[i] not in names and a[i] not in b.values() and b[i] != '?'
                    ctx.ob(ok, 'strings:%s:%s:%s' % (t, way, i), t, 'string %s of %s is %s %s, the format has %s' % (
                        i, t, 'read into' if way == 'read' else 'written from', b.get(i), a[i]))
    ctx.floor('types compared', len(spec['types']), 135)
    ctx.floor('forms compared', n, 380)
    ctx.floor('bit fields compared', sum(len(v) for v in spec['bits'].values()), 19)
    ctx.floor('offset table strings compared', sum(len(v.get('read', {})) for v in spec['strings'].values()), 24)


def path_key(p):
    k = [str(v) for v in p.get('given', {}).values()] + [d['is'] for d in p['items'] if 'is' in d]
    r = p['result'] if isinstance(p['result'], str) else '-'
    return '/'.join(k)[:60] + ':' + r[:40]


if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.join(os.path.dirname(SPEC), '..', 'sa'))
    import facts
    s, bad, _ = build(facts.load(sys.argv[1]))
    assert not bad, bad
    json.dump(s, open(SPEC, 'w'), indent=1, sort_keys=True)
    c14.reading(ctx, ctx.lib)       # what is stored behind offsets
