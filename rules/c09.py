"""No failure is swallowed: whatever fails to be read, written, parsed or decoded inside of an operation makes the operation
fail, or the error is handed on to something that can report it. Every value of type Result with such an error that a call
answers with is followed through every function and closure: it has to be returned, stored or handed to a call, or taken
apart such that the error itself is handed on, or that every way on from the error ends in returning an error. Results that
are never looked at, and combinators that turn an error into nothing, a default or a skipped item, are violations."""
import re
import cg

LEVEL = 'other'
TECHNIQUE = 'dataflow of Result values over MIR (every producer, every error edge)'
NOTE = 'All functions and closures of both crates, including the code generated by derives.'
DISCARD = re.compile(r'^core::result::Result::<.*>::(ok|unwrap_or|unwrap_or_default|unwrap_or_else|is_ok_and|'
                     r'is_err_and|map_or|map_or_else|or|or_else|iter|iter_mut)$')
EATS = re.compile(r'Iterator::(flatten|flat_map)$')
DROPS = re.compile(r'^core::mem::(drop|forget)|^core::mem::manually_drop|ManuallyDrop.*::new$|^core::mem::maybe_uninit')
ERRORS = re.compile(r'^&*(mut )?(alloc::boxed::Box<)?(binrw::error::Error|(std|core)::io::error::Error|util::RekordcrateError|'
                    r'rekordcrate::util::RekordcrateError|(rekordcrate::)?pdb::string::StringError|quick_xml::\S*Error\S*|'
                    r'core::fmt::Error|alloc::string::FromUtf(8|16)Error|core::str::error::Utf8Error|\S*DeError|S::Error|'
                    r'D::Error|E|<\S+ as serde\S*>::Error)')
# where failing is an answer by design, and why; private helpers that only these call count as part of them
ALLOWED = {
    'device::DeviceExportLoader::load_settings': 'documented: for a file that can not be read a warning is printed',
    'anlz::SongStructureData::check_if_encrypted': 'the trial read decides whether the data is encrypted; both answers go on '
                                                   'to a read whose error is returned',
    '<pdb::ext::ParentId as binrw::binread::BinRead>::read_options': '#[br(try)]: the second field is optional',
    '<pdb::string::DeviceSQLString as pdb::PageHeapObject>::heap_bytes_required': 'a length, not the result of reading',
}


def run(ctx):
    n = [0, 0, 0]
    ok = part_of(ctx)
    for cr in (ctx.lib, ctx.bin):
        for f in cr.fns:
            if 'blocks' in f:
                Fn(ctx, cr, f, n, ok).run()
    ctx.floor('results of calls followed', n[0], 1500)
    ctx.cov['handed on, returned or stored'] = n[2]


def base(p):
    return re.sub(r'(::\{closure#\d+\})+$', '', p)


def part_of(ctx):
    """functions of ALLOWED and the private helpers that are only called by them"""
    G = cg.CallGraph(ctx.crates)
    callers = {}
    for i, es in G.out.items():
        for e in es:
            a, b = base(e.f['path']), base(e.g['path'])
            if a != b:
                callers.setdefault(b, set()).add(a)
    ok = dict(ALLOWED)
    again = True
    while again:
        again = False
        for f in ctx.lib.fns:
            p = base(f['path'])
            if p not in ok and not f.get('reach') and not f.get('trait') and callers.get(p) and \
                    all(c in ok for c in callers[p]):
                ok[p] = 'part of ' + sorted(callers[p])[0]
                again = True
    return ok


class Fn:
    def __init__(self, ctx, cr, f, n, ok):
        self.ok = ok
        self.ctx, self.cr, self.f, self.n = ctx, cr, f, n
        self.L, self.B = f['locals'], f['blocks']
        self.rt = cr.T[self.L[0]['t']]
        self.builds_error = bool(ERRORS.match(self.rt['s'])) and not self.rt['s'].startswith('core::result')

    def err_of(self, ti):
        """the error type of a Result (also behind a reference) if it is one that must not be lost"""
        t = self.cr.T[ti]
        while t['k'] == 'ref':
            t = self.cr.T[t['t']]
        if t['k'] == 'adt' and t['path'] == 'core::result::Result' and isinstance(t['args'][1], int):
            s = self.cr.T[t['args'][1]]['s']
            return s if ERRORS.match(s) else None
        return None

    def names(self, c, t):
        yield c
        for a in c.get('args', ()):
            if isinstance(a, int) and self.cr.T[a]['k'] == 'fndef' and 'callee' in self.cr.T[a]:
                yield self.cr.T[a]['callee']
        for o in t['args']:
            if 'k' in o and 't' in o['k'] and 'callee' in self.cr.T[o['k']['t']]:
                yield self.cr.T[o['k']['t']]['callee']

    def run(self):
        ctx, cr, f = self.ctx, self.cr, self.f
        self.uses = {}
        for bi, b in enumerate(self.B):
            for s in b['s']:
                rv = s.get('rv')
                if not rv:
                    continue
                if 'pl' in rv:
                    self.use(rv['pl'], rv['k'], bi, s)
                for o in cg.operands(rv):
                    p = o.get('m') or o.get('c')
                    if p:
                        self.use(p, 'move' if rv['k'] == 'use' else 'store', bi, s)
            t = b['t']
            if t['k'] == 'call':
                for o in t['args']:
                    p = o.get('m') or o.get('c')
                    if p:
                        self.use(p, 'arg', bi, t)
            elif t['k'] == 'switch':
                p = t['o'].get('m') or t['o'].get('c')
                if p:
                    self.use(p, 'switch', bi, t)
        why = self.ok.get(base(f['path']))
        for bi, b in enumerate(self.B):
            t = b['t']
            c = cg.callee(cr, t)
            if c is None:
                continue
            for c2 in dict((cg.cname(x), x) for x in self.names(c, t)).values():
                self.combinator(c2, t, why)
            dst = t.get('dst')
            if dst is None or not self.err_of(self.L[dst['l']]['t'] if not dst.get('p') else dst['p'][-1].get('t', 0)
                                              if isinstance(dst['p'][-1], dict) else 0):
                continue
            if dst.get('p') or dst['l'] == 0:
                self.n[0] += 1
                self.n[2] += 1
                ctx.ob(True, '', '', '')
                continue
            self.n[0] += 1
            r = self.explore(dst['l'], t)
            name = cg.cname(c)
            if r is None:
                self.n[2] += 1
            ctx.ob(r is None or why is not None, 'lost:%s:%s' % (f['path'], name), ctx.where(f, t.get('ln')),
                   'the error of %s is lost: %s' % (name, r))

    def combinator(self, c, t, why):
        nm = cg.cname(c)
        a = [x for x in c.get('args', ()) if isinstance(x, int)]
        if DISCARD.match(nm):
            et = self.cr.T[a[1]]['s'] if len(a) > 1 else ''
            if not ERRORS.match(et) or et == 'E' and self.f.get('trait') is None or self.builds_error:
                return
            self.ctx.ob(why is not None or self.reports(nm, t), 'lost:%s:%s' % (self.f['path'], nm),
                        self.ctx.where(self.f, t.get('ln')),
                        'an error of type %s is dropped by %s' % (et, nm))
        elif EATS.search(nm):
            for x in c.get('args', ()):
                s = self.cr.T[x]['s'] if isinstance(x, int) else ''
                m = re.search(r'core::result::Result<(.*)$', s)
                inner = nm.endswith('flat_map') and self.cr.T[x]['k'] == 'adt' and self.cr.T[x]['path'] == 'core::result::Result'
                if inner or (nm.endswith('flatten') and m):
                    self.ctx.viol('lost:%s:%s' % (self.f['path'], nm), self.ctx.where(self.f, t.get('ln')),
                                  'the failures among the items of %s are skipped' % s[:100])

    def reports(self, nm, t):
        """unwrap_or_else and the like whose closure looks at the error, or answers with an error, hand it on"""
        if nm.endswith('::or') and len(t['args']) > 1:
            p = t['args'][1].get('m') or t['args'][1].get('c')
            return bool(p) and not p.get('p') and self.always_err(self.B, p['l'])
        if not nm.endswith(('unwrap_or_else', 'or_else', 'map_or_else')):
            return False
        for o in t['args'][1:]:
            p = o.get('m') or o.get('c')
            ti = self.L[p['l']]['t'] if p and not p.get('p') else (o.get('k') or {}).get('t')
            ty = self.cr.T[ti] if ti is not None else {}
            if ty.get('k') == 'closure':
                g = self.cr.by_key.get(ty['key'])
                if g is not None and 'blocks' in g:
                    sub = Fn(self.ctx, self.cr, g, [0, 0, 0], self.ok)
                    sub.run_uses()
                    if len(g['locals']) > 2 and ERRORS.match(self.cr.T[g['locals'][2]['t']]['s']) and sub.handed(2, set()):
                        return True
                    if not nm.endswith('unwrap_or_else') and self.always_err(g['blocks'], 0):
                        return True
            if ty.get('k') == 'fndef':
                return True
        return False

    def always_err(self, blocks, l):
        """all that is ever put into the local is an Err that is made there"""
        n = 0
        for b in blocks:
            for s in b['s']:
                if s['k'] == '=' and s['pl']['l'] == l:
                    if s['pl'].get('p') or s['rv'].get('k') != 'agg' or s['rv'].get('vn') != 'Err' or \
                            s['rv'].get('path') != 'core::result::Result':
                        return False
                    n += 1
            if b['t']['k'] == 'call' and (b['t'].get('dst') or {}).get('l') == l:
                return False
        return n > 0

    def run_uses(self):
        n = self.ctx.nob, self.ctx.ndis, list(self.ctx.violations), set(self.ctx.seen)
        self.run()
        self.ctx.nob, self.ctx.ndis, self.ctx.violations, self.ctx.seen = n

    def use(self, p, what, bi, s):
        self.uses.setdefault(p['l'], []).append((what, p.get('p') or [], bi, s))

    # ------------------------------------------------------------------ where a result goes
    def explore(self, l, call):
        """None if on every way on from the call, had it answered with an error, the error is handed on or an error is
        returned; else what happens"""
        if self.builds_error:
            return None
        isres = self.rt['k'] == 'adt' and self.rt['path'] == 'core::result::Result'
        todo = [(b, frozenset({l}), frozenset(), frozenset(), None) for b in (call.get('to') or [])[:1]]
        seen, looked = set(), False
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 20000:
                return 'there are too many ways on from it'
            b, res, pay, known, st = x
            known = dict(known)
            done = False
            for s in self.B[b]['s']:
                if s.get('k') != '=':
                    continue
                rv, d = s['rv'], s['pl']
                srcs = [p for p in [rv.get('pl')] + [o.get('m') or o.get('c') for o in cg.operands(rv)] if p]
                hr = any(p['l'] in res and all(e == '*' for e in p.get('p') or ()) for p in srcs)
                hp = any(p['l'] in pay or p['l'] in res and any(isinstance(e, dict) and e.get('vn') == 'Err'
                                                                for e in p.get('p') or ()) for p in srcs)
                if rv['k'] == 'discr' and hr:
                    looked = True
                    known[d['l']] = 1
                    continue
                if rv['k'] == 'discr' and hp:
                    continue
                if not d.get('p') and d['l'] != l:
                    known.pop(d['l'], None)
                if rv['k'] == 'use' and not d.get('p'):
                    p = rv['o'].get('m') or rv['o'].get('c')
                    if p and not p.get('p') and p['l'] in known:
                        known[d['l']] = known[p['l']]
                if rv['k'] == 'un' and rv.get('op') == 'Not' and srcs and srcs[0]['l'] in known and not d.get('p'):
                    known[d['l']] = 1 - known[srcs[0]['l']]
                if hr or hp:
                    looked = True
                    if d['l'] == 0 or d.get('p'):
                        if not (isres and rv.get('k') == 'agg' and rv.get('vn') == 'Ok'):
                            done = True
                    elif hr and rv['k'] in ('use', 'ref'):
                        res = res | {d['l']}
                    elif rv['k'] in ('use', 'ref', 'cast', 'agg', 'rawptr'):
                        pay = pay | {d['l']}
                if d == {'l': 0} and not done:
                    st = 'err' if rv.get('k') == 'agg' and rv.get('vn') == 'Err' and isres else 'ok'
            if done:
                continue
            t = self.B[b]['t']
            nxt = cg.succ(t)
            if t['k'] == 'call':
                nxt = (t.get('to') or [])[:1]
                args = [p['l'] for p in [o.get('m') or o.get('c') for o in t['args']] if p]
                c = cg.callee(self.cr, t)
                nm = cg.cname(c) if c is not None else ''
                d = t.get('dst') if t.get('dst') and not t['dst'].get('p') else None
                if d is not None:
                    known.pop(d['l'], None)
                if any(a in res for a in args):
                    looked = True
                    if re.search(r'Result::<.*>::is_(ok|err)$', nm) and d is not None:
                        known[d['l']] = int(nm.endswith('is_err'))
                    elif re.search(r'Result::<.*>::(as_ref|as_mut)$|clone::Clone.*::clone$', nm) and d is not None:
                        res = res | {d['l']}
                    elif not DROPS.search(nm):
                        continue            # what the call makes of it is followed from there, or judged as a combinator
                elif any(a in pay for a in args):
                    if 'fmt::rt::Argument' in nm or nm.startswith('core::fmt::'):
                        # becomes part of a text: printed, or kept in what the call makes of it
                        if self.cr.bin or self.prints():
                            continue
                        if d is not None:
                            pay = pay | {d['l']}
                    elif re.search(r'std::io::stdio::_e?print', nm):
                        pass
                    elif any(self.passes(h, t) for h in args if h in pay):
                        continue
                if t.get('dst') == {'l': 0}:
                    st = 'err' if nm.endswith('from_residual') else 'ok'
            elif t['k'] == 'switch':
                p = t['o'].get('m') or t['o'].get('c')
                if p and not p.get('p') and p['l'] in known:
                    v = known[p['l']]
                    nxt = [y for x2, y in t['vals'] if int(x2) == v]
                    if not nxt:
                        nxt = [t['else']] if t.get('else') is not None else []
            elif t['k'] in ('drop', 'assert', 'falseEdge', 'goto'):
                nxt = (t.get('to') or [])[:1]
            if t['k'] in ('return', 'ret') and st != 'err':
                return 'there is a way from the error to returning something other than an error' if looked else \
                    'the result is never looked at'
            for y in nxt:
                todo.append((y, res, pay, frozenset(known.items()), st))
        return None

    def prints(self):
        return self.ok.get(base(self.f['path'])) is not None

    def handed(self, l, seen):
        if l in seen:
            return False
        seen.add(l)
        if l == 0:
            return True
        for what, p, bi, s in self.uses.get(l, ()):
            if what == 'arg':
                if self.passes(l, s):
                    return True
            elif what == 'store':
                return True
            elif what in ('move', 'ref') and (s['pl'].get('p') or self.handed(s['pl']['l'], seen)):
                return True
        return False

    def passes(self, l, t):
        """does a call that is given the error (or a reference to it) hand it on? Looking at its kind does not, printing it
        does in the tool"""
        c = cg.callee(self.cr, t)
        if c is None:
            return True
        nm = cg.cname(c)
        if DROPS.search(nm):
            return False
        if 'fmt::rt::Argument' in nm or nm.startswith('core::fmt::'):
            return self.cr.bin or self.prints()
        if self.cr.T[self.L[l]['t']]['k'] != 'ref':
            return True
        d = t.get('dst')
        rt = self.cr.T[self.L[d['l']]['t']]['s'] if d and not d.get('p') else ''
        return bool(re.search('Error(?!Kind)|Result', rt))

