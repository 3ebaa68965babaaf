"""Only flushing or closing a database opened for writing writes to its stream, only exporting playlists creates files, and
nothing else the library or the tool does changes anything outside of the process. Effects are followed through the call
graph, instantiated per type argument: a function may write to a stream that its caller hands it as `&mut W` (that is what
writers are for) or to memory, every other call that writes, and every call that changes the file system, starts a process,
uses the network or the like is an effect; of the functions of the library only flush and close may reach one, in the tool
only the branch of export-playlists."""
import re
import cg
import effects
import engine

LEVEL = 'proof'
TECHNIQUE = 'interprocedural effect analysis over the instantiated call graph'
NOTE = 'All functions of both crates, whatever the input. Effects of dependencies are classified by the called function.'
ASSUMPTIONS = ['reading from or seeking in a stream does not change its content',
               'functions of dependencies have no effects other than those the classification in sa/effects.py names']
MAY = ('pdb::io::Database::<RW>::flush', 'pdb::io::Database::<RW>::close')


def run(ctx):
    G = cg.CallGraph(ctx.crates)
    E = engine.Engine(ctx.crates)
    I = cg.Instances(G, E)
    # effects inside of each instance
    own = {}
    nw = nout = 0
    for k, f in I.nodes.items():
        cr = f['crate']
        sub = dict_of(k, cr)
        fr = cg.Frame0(f, sub)
        for bi, b in enumerate(f['blocks']):
            for c, ln in callees(cr, b):
                r = E.resolve(fr, c)
                n = cg.cname(r)
                o = effects.outside(n)
                if o:
                    nout += 1
                    own.setdefault(k, []).append((o + ' (%s)' % n, ln, None, bi))
                w = effects.write_call(r)
                if w is not None:
                    a = r.get('args') or []
                    ti = a[w] if len(a) > w and isinstance(a[w], int) else None
                    tt = effects.target_type(cr, ti) if ti is not None else 'an unknown stream'
                    nw += 1
                    if tt != 'mem':
                        own.setdefault(k, []).append(('writes to ' + (tt if isinstance(tt, str) else 'a stream of type ' + tt[1]),
                                                      ln, tt[1] if isinstance(tt, tuple) else None, bi))
    called = {e[0] for k in I.out for e in I.out[k]}
    # what others can call; a private helper is judged with its callers
    roots = [k for k, f in I.nodes.items() if f['kind'] == 'fn' and not dict_of(k, f['crate']) and
             not f['crate'].bin and f['path'] not in MAY and
             (f.get('reach') or f.get('trait') or k not in called)]
    nroot = 0
    for k in sorted(roots, key=lambda k: I.nodes[k]['path']):
        f = I.nodes[k]
        given = effects.by_ref_params(f)
        wr = (f.get('trait') or '')
        if wr.endswith('::Write') and 'fmt' not in wr or wr.endswith('BinWrite'):
            # a writer: to what it wraps or is given
            given = given | set(f.get('generics') or ())
        nroot += 1
        bad = first(I, k, own, given)
        ctx.ob(bad is None, 'effect:%s' % f['path'], ctx.where(f), 'reaches a call that %s, although it neither is nor '
               'belongs to flush, close or a writer: %s' % (bad or ('', ''))[:2] if bad else '')
    for p in MAY:
        ctx.need(p in ctx.lib.by_path, p)
    for k, f in I.nodes.items():
        if f['path'] in MAY and not f['crate'].bin and not dict_of(k, f['crate']):
            for o in everything(I, k, own):
                ctx.ob(o[0].startswith('writes to'), 'effect:%s' % f['path'], ctx.where(f), 'reaches a call that %s' % o[0])
    tool(ctx, G, I, own)
    ctx.floor('library functions checked', nroot, 1000)
    ctx.floor('calls that write', nw, 100)
    ctx.cov['instances in the call graph'] = len(I.nodes)
    ctx.cov['calls with an effect outside of the process'] = nout


def dict_of(k, cr):
    return {n: int(v) if v.lstrip('-').isdigit() else v for n, v in k[1]}


def callees(cr, b):
    """every function a block calls or uses as a value"""
    ops = []
    for s in b['s']:
        for o in cg.operands(s.get('rv') or {}):
            ops.append((o, s.get('ln')))
    t = b['t']
    c = cg.callee(cr, t)
    if c is not None:
        yield c, t.get('ln')
        ops += [(o, t.get('ln')) for o in t['args']]
        for a in c.get('args', ()):
            if isinstance(a, int) and cr.T[a]['k'] == 'fndef' and 'callee' in cr.T[a]:
                yield cr.T[a]['callee'], t.get('ln')
    for o, ln in ops:
        if 'k' in o and 't' in o['k'] and 'callee' in cr.T[o['k']['t']]:
            yield cr.T[o['k']['t']]['callee'], ln


def first(I, k, own, given):
    """the first effect reached from k that is not a write to one of the given type parameters of k itself"""
    seen, todo = {k: None}, [k]
    while todo:
        x = todo.pop(0)
        for (what, ln, par, _) in own.get(x, ()):
            if par is not None and par in given:
                continue
            return what, path(I, seen, x, ln)
        for e in edges(I, x):
            if e[0] not in seen:
                seen[e[0]] = (x, e[3])
                todo.append(e[0])
    return None


def edges(I, x):
    """the calls of an instance; a writer called back by a dependency writes to the stream that the dependency was given, which
    is classified where the dependency is called"""
    for e in I.out[x]:
        tr = I.nodes[e[0]].get('trait') or ''
        if e[1] not in ('callback', 'value') or not (tr.endswith('BinWrite') or tr.endswith('io::Write') or tr.endswith('io::write::Write')):
            yield e


def path(I, seen, x, ln):
    out = ['%s:%s' % (I.nodes[x]['path'], ln)]
    while seen[x] is not None:
        x, l = seen[x]
        out.append('%s:%s' % (I.nodes[x]['path'], l))
    return ' <- '.join(out[:6])


def everything(I, k, own):
    seen, todo = {k}, [k]
    while todo:
        x = todo.pop()
        yield from own.get(x, ())
        for e in edges(I, x):
            if e[0] not in seen:
                seen.add(e[0])
                todo.append(e[0])


def tool(ctx, G, I, own):
    """whatever the tool is told to do, it changes nothing except when it exports playlists"""
    ctx.need(ctx.bin, 'the rekordcrate binary')
    main = [k for k, f in I.nodes.items() if f['crate'].bin and f['path'] == 'main' and not k[1]]
    ctx.need(main, 'main')
    ad = ctx.adt('Commands', ctx.bin)
    ix = [i for i, v in enumerate(ad['variants']) if v['n'] == 'ExportPlaylists']
    ctx.need(ix, 'Commands::ExportPlaylists')
    seen, todo, edges_cut = {main[0]: None}, [main[0]], 0
    bad = None
    while todo:
        x = todo.pop(0)
        f = I.nodes[x]
        live, cut = without(f, ad['path'], ix[0]) if f['crate'].bin else (None, 0)
        edges_cut += cut
        for (what, ln, par, bi) in own.get(x, ()):
            if (live is None or bi in live) and bad is None:
                bad = (what, path(I, seen, x, ln))
        for e in edges(I, x):
            if (live is None or e[2] in live) and e[0] not in seen:
                seen[e[0]] = (x, e[3])
                todo.append(e[0])
    ctx.ob(bad is None, 'effect:main', ctx.where(I.nodes[main[0]]), 'a command other than export-playlists reaches a call that '
           '%s: %s' % bad if bad else '')
    ctx.floor('branches of export-playlists', edges_cut, 1)
    # and that the branch was not lost: exporting does create files
    eff = [o for o in everything(I, main[0], own)]
    for o in eff:
        ctx.ob(o[0].startswith(('writes to', 'opens a file')) or re.search(r'::(create_dir|create_dir_all|create|create_new|'
               r'write|recursive)\)', o[0]), 'export-effect:%s' % o[0], ctx.where(I.nodes[main[0]]),
               'the tool %s; exporting may only create directories and files' % o[0])
    ctx.floor('effects of export-playlists', len(eff), 1)
    ctx.cov['functions of the tool and library reached by other commands'] = len(seen)


def without(f, ty, ix):
    """the blocks reached from the entry without taking the branch for one variant of an enum"""
    cr = f['crate']
    cut = 0
    live, todo = {0}, [0]
    while todo:
        b = todo.pop()
        t = f['blocks'][b]['t']
        out = cg.succ(t)
        if t['k'] == 'switch' and discr_of(f, b, t, ty):
            out = [y for x, y in t['vals'] if int(x) != ix]
            gone = [y for x, y in t['vals'] if int(x) == ix]
            if t.get('else') is not None:
                if gone:
                    out.append(t['else'])
                elif len(t['vals']) + 1 < len(cr.adts[ty]['variants']):
                    out.append(t['else'])     # stands for others as well
                else:
                    gone = [t['else']]
            cut += len(gone)
        for y in out:
            if y not in live:
                live.add(y)
                todo.append(y)
    return live, cut


def discr_of(f, b, t, ty):
    cr = f['crate']
    p = t['o'].get('m') or t['o'].get('c')
    if not p or p.get('p'):
        return False
    d = [s['rv'] for bb in f['blocks'] for s in bb['s'] if s['k'] == '=' and s['pl'] == {'l': p['l']}]
    if len(d) != 1 or d[0]['k'] != 'discr':
        return False
    q = d[0]['pl']
    ti = f['locals'][q['l']]['t']
    for e in q.get('p', ()):
        if e == '*':
            ti = cr.T[ti]['t']
        elif isinstance(e, dict) and 't' in e:
            ti = e['t']
        else:
            return False
    return cr.T[ti].get('path') == ty
