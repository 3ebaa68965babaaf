"""No value that reading can produce makes printing it panic: every MIR assertion and panicking call reachable from the
Debug and Display implementations (hand-written and derived) is discharged for arbitrary values of the type. And no such
implementation makes up a formatting error of its own (instead of passing on one of the writer): to_string(), println!()
and the like panic on it."""
from rules import panics

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of MIR over every Debug/Display implementation, for arbitrary values'
NOTE = 'All values; trusts the models of core::fmt and of the derives\' builders.'
ASSUMPTIONS = ['core::fmt builders and the writer given to them do not panic and report no error of their own']
ERR = 'core::fmt::Error'


def made_errors(L, f):
    """places in f where a core::fmt::Error comes into being"""
    def const_err(o):
        if not isinstance(o, dict) or 'k' not in o:
            return False
        return has_err(o['k'].get('ds')) or L.T[o['k']['t']]['s'] == ERR

    def has_err(d):
        return isinstance(d, dict) and (L.T[d['t']]['s'] == ERR if 't' in d else False) or \
            isinstance(d, dict) and any(has_err(x) for x in d.get('f') or ())

    for b in f['blocks']:
        for s in b['s']:
            rv = s.get('rv')
            if not rv:
                continue
            if rv.get('ak') == 'adt' and rv.get('path') == ERR:
                yield s.get('ln'), 'constructed'
            for o in (rv.get('os') or []) + [rv.get('o')]:
                if const_err(o):
                    yield s.get('ln'), 'constant'
        t = b['t']
        if t['k'] == 'call':
            for o in t['args']:
                if const_err(o):
                    yield t.get('ln'), 'constant'
            d = t['dst']
            if not d.get('p') and L.T[f['locals'][d['l']]['t']]['s'] == ERR and \
                    not any(ERR in arg_type(L, f, o) for o in t['args']):
                yield t.get('ln'), 'result of a call'


def arg_type(L, f, o):
    if 'k' in o:
        return L.T[o['k']['t']]['s']
    p = o.get('m') or o.get('c') or {}
    return L.T[f['locals'][p['l']]['t']]['s'] if 'l' in p else ''


def run(ctx):
    E = panics.run(ctx, 'C02', 150, 30)
    L = ctx.lib
    n = 0
    for k in sorted(E.visited):
        f = L.by_key.get(k)
        if not f or 'blocks' not in f or 'C02' not in panics.bucket(L, f) and not fmt_result(L, f):
            continue
        n += 1
        bad = list(made_errors(L, f))
        ctx.ob(not bad, 'fmt-error:%s' % f['path'], ctx.where(f, bad[0][0] if bad else None),
               'this implementation reports a formatting error of its own (%s): printing the value panics'
               % (bad[0][1] if bad else ''))
    ctx.floor('formatting functions checked for errors of their own', n, 150)


def fmt_result(L, f):
    return ERR in L.T[f['locals'][0]['t']]['s']
