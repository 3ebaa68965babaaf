"""The command line tool never panics on the contents of the files it is given: every MIR assertion, panicking call and
diverging call of the binary crate is discharged for arbitrary values of everything the library returns. The only accepted
diverging arms are those after a comparison with all values that the argument parser lets through (the strings of a
value_parser list and the strings compared before the arm have to agree); the code clap generates is not analysed."""
import engine
from rules import panics

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of the MIR of the binary crate; agreement of argument value lists with match arms'
NOTE = 'All library results and file contents; library calls are the subject of C01-C03. Writing to a closed stdout is excluded.'
ASSUMPTIONS = ['no object in memory takes more than 2^48 bytes',
               'clap rejects argument values that are not in the value_parser list',
               'print!/println! panic only when stdout cannot be written', 'library functions do not panic (C01-C03)']


def bodies(f):
    return [f] + list(f.get('promoted', []))


def str_of(body, o, d=0):
    """the string constant an operand holds, by following single assignments"""
    if d > 8:
        return None
    if 'k' in o:
        return o['k'].get('str')
    pl = o.get('c') or o.get('m')
    return str_local(body, pl['l'], d)


def str_local(body, l, d):
    asg = [s['rv'] for b in body['blocks'] for s in b['s'] if s.get('k') == '=' and s['pl'] == {'l': l}]
    if len(asg) != 1:
        return None
    rv = asg[0]
    if rv['k'] == 'use':
        return str_of(body, rv['o'], d + 1)
    if rv['k'] == 'ref':
        return str_local(body, rv['pl']['l'], d + 1)
    return None


def run(ctx):
    B = ctx.need(ctx.bin, 'binary crate')
    lists = []
    for f in B.fns:
        if 'blocks' not in f or not (f.get('trait') or '').startswith('clap_builder::derive'):
            continue
        for body in bodies(f):
            for b in body['blocks']:
                for s in b['s']:
                    rv = s.get('rv') or {}
                    if rv.get('ak') == 'array' and rv['os']:
                        v = [str_of(body, o) for o in rv['os']]
                        if all(v):
                            lists.append(frozenset(v))
    ctx.cov['argument value lists'] = sorted(sorted(x) for x in set(lists))
    E = engine.Engine(ctx.crates)
    E.cr = B
    n = 0
    for kind in ('fn', 'closure'):
        for f in B.fns:
            if 'blocks' not in f or f['kind'] != kind or (kind == 'closure' and f['key'] in E.visited):
                continue
            g = panics.parent_fn(B, f)
            if (g.get('trait') or '').startswith('clap_builder::derive'):
                continue
            E.analyse(f)
            n += 1
        E.run_created()
    by = {}
    for f in B.fns:
        by.setdefault(f['path'], f)
    for o in E.ob.values():
        if o.ok or o.kind != 'diverge':
            continue
        f = by.get(o.fn)
        cmp = set()
        for b in (f or {}).get('blocks', ()):
            t = b['t']
            if t['k'] == 'call' and 'k' in t['f']:
                c = (B.T[t['f']['k']['t']].get('callee') or {}).get('p', '')
                if c.endswith('PartialEq::eq'):
                    cmp |= {x for x in (str_of(f, a) for a in t['args']) if x}
        if any(cmp >= l for l in lists):
            o.ok = True
            ctx.sample('%s: the diverging arm is after a comparison with all of %s' % (o.fn, sorted(cmp)))
    panics.report(ctx, E, B, trust=False)
    ctx.floor('functions analysed', n, 12)
    ctx.floor('panic obligations', len(E.ob), 3)
