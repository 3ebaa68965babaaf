"""Every reader and the writer of the same type describe the same bytes. Both are walked by the abstract interpreter, path
by path, recording each item they move: type, value, byte order, padding, magic number, adapter. For every path on which
the reader answers with a value, the writer is walked on that very value, and each of its successful paths must move the
same items with the same values in the same order: so counts, lengths and magic numbers that are not kept in memory are
recomputed to what they were, and reading back what was written gives the value that was written."""
import engine
import wire
from rules import c14

LEVEL = 'proof'
TECHNIQUE = 'path-sensitive abstract interpretation of the MIR of every BinRead/BinWrite pair; agreement of wire signatures'
NOTE = ('All values of all types with both a reader and a writer, item by item; readers and writers of the items are '
        'compared at their own type. Trusts the models of binrw and std; the exceptions are listed in the evidence.')
ASSUMPTIONS = [
    "a primitive, Vec, array, NullString or NullWideString that binrw writes and reads back with the same byte order and "
    "count is the same value",
    'hand-written readers/writers with loops stand for one item (their names are in the coverage)']

# what can not agree, and why (keys of the mismatches below)
EXPECTED = {
    ('setting::Setting', 'value:6'): 'the checksum is not kept: it is recomputed (which bytes it covers is C15)',
    ('setting::Setting', 'value:7'): 'the checksum is not kept: it is recomputed (which bytes it covers is C15)',
    ('setting::Setting', 'value:8'): 'the checksum is not kept: it is recomputed (which bytes it covers is C15)',
    ('setting::Setting', 'value:9'): 'the checksum is not kept: it is recomputed (which bytes it covers is C15)',
    ('pdb::IndexPageContent', 'shape:3'): 'the unused tail of a page is padded on write and never read',
    ('pdb::IndexPageContent', 'value:2'): 'filler entries carry nothing: how many are written follows from the page size (C24)',
}
SKIP = {
    'anlz::LenPrefixedWideString': 'hand-written transcoding loops between UTF-16 and String',
    'pdb::io::LazyDatabase': 'reads only the header; pages are loaded later (C24)',
}


def pairs(cr):
    R, W = {}, {}
    for f in cr.fns:
        if 'self' not in f or 'blocks' not in f:
            continue
        if f.get('trait') == 'binrw::binread::BinRead' and f['name'] == 'read_options':
            R[cr.T[f['self']]['s']] = f
        if f.get('trait') == 'binrw::binwrite::BinWrite' and f['name'] == 'write_options':
            W[cr.T[f['self']]['s']] = f
    return R, W


def local_items(w, R, cr):
    """the local types among the items of a reader"""
    out = set()
    for st, _ in w.reader(R)[0]:
        for it in w.items(st) or ():
            if it[0] == 'val' and it[1] in cr.adts:
                out.add(it[1])
    return out


def run(ctx):
    cr = ctx.lib
    R, W = pairs(cr)
    n = npairs = 0
    customs, used, one = set(), set(), []
    for t in sorted(R):
        if t not in W:
            one.append(t)
            continue
        if t in SKIP:
            continue
        n += 1
        try:
            w = wire.Wire(ctx.crates)
            rp, np, bad = w.agree(R[t], W[t])
            if rest(t, bad, None):      # the arguments given to the readers of its parts may matter: follow those too
                w2 = wire.Wire(ctx.crates)
                w2.deep = local_items(w, R[t], cr) - {t}
                if w2.deep:
                    rp2, np2, bad2 = w2.agree(R[t], W[t])
                    if len(rest(t, bad2, None)) < len(rest(t, bad, None)):
                        w, rp, np, bad = w2, rp2, np2, bad2
        except engine.Unsupported as e:
            ctx.ob(False, 'unsupported:%s' % t, ctx.where(R[t]), 'the reader or the writer of %s could not be followed: %s' % (t, e))
            continue
        npairs += np
        customs |= w.customs
        seen = rest(t, bad, used)
        for k, m in sorted(seen.items()):
            ctx.ob(False, '%s:%s' % (t, k), ctx.where(W[t]), '%s: %s' % (t, m))
        ctx.ob(rp > 0, 'nopath:%s' % t, ctx.where(R[t]), 'no path of the reader of %s answers with a value' % t)
        if t in cr.adts and cr.adts[t]['kind'] == 'enum':
            for i, v in enumerate(cr.adts[t]['variants']):
                ctx.ob(i in w.variants, 'variant:%s::%s' % (t, v['n']), ctx.where(R[t]),
                       'no path of the reader of %s answers with %s' % (t, v['n']))
        if not seen:
            ctx.nob += np
            ctx.ndis += np
            ctx.sample('%s: %d reader paths, %d reader/writer path pairs agree' % (t, rp, np))
    ctx.floor('types with a reader and a writer', n, 130)
    ctx.floor('pairs of paths compared', npairs, 600)
    ctx.cov['read or written only'] = one
    ctx.cov['custom readers/writers taken as one item'] = sorted(customs)
    ctx.cov['exceptions'] = sorted(used) + ['%s: %s' % x for x in sorted(SKIP.items())]
    c14.reading(ctx, cr)        # what is stored behind offsets
    c14.writing(ctx, cr)


def rest(t, bad, used):
    """the mismatches that are not expected"""
    out = {}
    for k, m in bad:
        if (t, k) in EXPECTED and tolerated(t, k, m):
            if used is not None:
                used.add('%s %s: %s' % (t, k, EXPECTED[(t, k)]))
        else:
            out.setdefault(k, m)
    return out


def tolerated(t, k, m):
    if t == 'pdb::IndexPageContent':
        return 'is read as nothing but written as pad' in m or k == 'value:2' and 'EmptyIndexEntries' in m
    return '(u16' in m
