"""No in-memory value makes writing or row allocation panic: every MIR assertion and panicking call reachable from the
writers, the row allocator, the string constructors and the serialisers is discharged for arbitrary values, or reported."""
from rules import panics

LEVEL = 'proof'
TECHNIQUE = 'abstract interpretation of MIR (intervals/linear facts, variants, lengths, stream positions) over every writer'
NOTE = 'All values; overflow checks on. Trusts the models of std/binrw/serde.'
ASSUMPTIONS = ['no object in memory takes more than 2^48 bytes',
               'functions of std, binrw, serde that have no panic condition in their documentation do not panic',
               'const-generic array lengths are at most 2^32; stream positions are below 2^63']


def run(ctx):
    panics.run(ctx, 'C03', 200, 100)
