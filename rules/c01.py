"""No byte sequence makes reading panic: every MIR assertion and every panicking call reachable from the readers, the
lazy page loader, the row iterators, the decoded accessors and the deserialisers is discharged by the abstract interpreter
for arbitrary arguments, or reported with the call chain that reaches it."""
from rules import panics

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of MIR (intervals/linear facts, variants, lengths, stream positions) over every entry function'
NOTE = 'All inputs; overflow checks on. Trusts the models of std/binrw/serde and excludes stack and memory exhaustion (C05, C21).'
ASSUMPTIONS = ['no object in memory takes more than 2^48 bytes',
               'functions of std, binrw, serde, quick-xml that have no panic condition in their documentation do not panic',
               'const-generic array lengths are at most 2^32; stream positions are below 2^63',
               'allocation failure and stack exhaustion are other properties']


def run(ctx):
    panics.run(ctx, 'C01', 500, 250)
