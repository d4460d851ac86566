"""C17: symbolic arithmetic is exact."""
from bbv import numwatch as W
from checks import _num as N

PROPERTY, LEVEL = 'C17', 'exploration'
TECHNIQUE = ('shadow-value monitor of every operation: exact integers, or residues worked out independently '
             'when the value cannot be written out')
NOTE = ('Values up to 60 000 bits are compared exactly; larger ones by their residues modulo seven numbers. '
        'Divisions are exact ones, which is what the library allows.')
RULE = ('Random sessions of operations on powers, in a small domain and a tower domain, and the real prover '
        'on recorded programs with symbolic counts, with its operators hooked. Non-trivial: distinct '
        'results (as text) that were compared, and programs watched.')
ASSUMPTIONS = ['An exception of the kinds the library uses for refusing is a refusal.']


def small(col, seed):
    run_session(col, seed, 'small')


def tower(col, seed):
    run_session(col, seed, 'tower')


def run_session(col, seed, domain):
    num = N.library()
    read = W.Reader(num)

    def see(op, v, s):
        col.nontriv(s.text)
        ok = N.judge_value(col, read, v, s, s.text, op)
        col.count(f'{op} results')
        return ok

    def refused(op, e, text):
        N.expect(col, e, op, text)

    N.session(seed, domain, see, refused)
    col.count(f'{domain} sessions')


def real(col, item):
    N.hooked(col, item, 'value')


def run(ctx):
    rng = ctx.rng('sessions')
    ctx.map('small', [rng.random() for _ in range(ctx.scale(15000, 300_000))], mem=3 << 30)
    ctx.map('tower', [rng.random() for _ in range(ctx.scale(10000, 200_000))], mem=3 << 30)
    ctx.map('real', N.algebra(rng, 60 if ctx.quick else None), mem=3 << 30)
    ctx.need('values compared', 50_000)
    ctx.need('values too large to write, compared by residues', 10_000)
    ctx.need('operations in real runs', 20_000)
