"""C26: the structured C programs are faithful translations."""
import re

from bbv import ctrace, paths, sim

PROPERTY, LEVEL = 'C26', 'exploration'
TECHNIQUE = ('online monitor: every store of the program is watched (sanitizer coverage callbacks) and the '
             'machine is stepped alongside on its own tape; AddressSanitizer and UBSan')
NOTE = ('Each program has one run, and it is watched to its end, except for three programs that are named '
        'after more than 7 * 10^9 steps and return at once: their early return is taken away and their first '
        '2 * 10^8 steps (thorough: up to 7 * 10^9) are watched; that their tape holds the rest is judged from '
        'the recorded extent of the whole run.')
RULE = ('All programs of machines/structured. Non-trivial: distinct programs watched for more than 10 steps; '
        'every step is compared (head, color written, and nothing else written on the tape).')

_ = ' ... ... ...'
TABLES = {
    '21': ('1RB 1L_  1LB 0RC  1LC 1LA', 0),
    '34': ('1RB 1LB  1LA 1LC  1RC 0LC', 0),
    '1434': ('1RB ... ... ...  0LC 2LC ... ...  0LC 3RD 0RD 2RE  1LF 1LC 1RB ...  ... 3RD ... ...  '
             '1LG ... 2RB 1LF  2RE ... 2LC ...', 0),
    '2819': ('1RB 1RC  1LC 1RD  1RA 1LD  0RD 0LB', 0),
    # its first five steps, then the loop of the program it names
    '9340': ('2LA 3LB 0RA 0RB  1RA 2RB 1RB 2RA' + ''.join(f'  {i}{_}' for i in
                                                           ('1RD', '0RE', '1RF', '1RG', '1RA')), 2),
    '31315': ('1RB 1LC  0LC 0RD  1RD 1LE  1RE 1LA  1LA 0LB', 0),
    '66345': ('1RB 0LC  1LD 0LA  1RC 1RD  1LA 0LD', 0),
    '2315619': ('1RB 2LB 1LC  1LA 2RB 1RB  1R_ 2LA 0LC', 0),
    '2333909': ('1RB 2RB 1LB 1LA  1LB 3RA 3LA 2RB', 0),
    '3932964': ('1RB 2LA 1RA 1RA  1LB 1LA 3RB 1R_', 0),
    '15721562': ('1RB ... ... ... ...  2LC ... ... ... ...  3RD 3LC ... 1LC 1R_  ... 1RD 1RB 1LE ...  '
                 '4RD 1LE ... 1RD 1LC', 0),
    '32779477': ('1RB 1LC  1RD 1RB  0RD 0RC  1LD 1LA', 0),
    '47176870': ('1RB 1LC  1RC 1RB  1RD 0LE  1LA 1LD  1R_ 0LA', 0),
    '7021292621': ('1RB 4LA 1LA 1R_ 2RB  2LB 3LA 1LB 2RA 0RB', 0),
    '455790469742': ('1RB ...  0RC 1RB  1LC 1LD  1RE 0RD  0LE 0RB', 0),
    '455790469746': ('1RB ...  0LC 0LB  0LD 1LC  1RD 0RE  1LB 1LA', 0),
}
# How far from the start the whole run goes, from a complete run of each program once.
EXTENT = {
    '7021292621': (-52, 9),
}
LONG = {'7021292621': 7_100_000_000, '455790469742': 3_000_000_000, '455790469746': 3_000_000_000}


def case(col, item):
    name, limit = item
    src = paths.REPO / 'machines' / 'structured' / f'{name}.c'
    text = src.read_text()
    col.ev()
    if name in TABLES:
        prog, start = TABLES[name]
    else:
        m = re.search(r'#define PROGRAM "(.*)"', text)
        if not m:
            col.count('programs that name no machine')
            return
        prog, start = m.group(1), 0
    rows = sim.parse(prog)
    long = int(name) > limit
    b = ctrace.build(f's{name}', src, ctrace.table(rows, ctrace.plain), len(rows[0]), name,
                     limit, skip_return=long, start=start, need=EXTENT.get(name))
    if b.error:
        line = next((x for x in b.error.splitlines() if 'error' in x), b.error[-200:])
        col.violation('compile', name, line)
        return
    if b.unwatched:
        col.count('compiled, but not watched')
        if not long:
            rc, _, err = b.run(800)
            if rc:
                col.violation('run', name, f'exit {rc}: {err[-200:]}')
        b.remove()
        return
    try:
        bad, how, nums = ctrace.result(*b.run(800))
    except ctrace.subprocess.TimeoutExpired:
        bad, how, nums = 'no answer', None, {}
    b.remove()
    if bad:
        col.violation('run', name, bad)
        return
    col.count('steps watched', nums['steps'])
    if long:
        if how != 'limit':
            col.violation('end', name, f'it stops early: {how}, {nums}')
            return
        col.count('followed for a part')
    else:
        if nums['steps'] != int(name) or not how.startswith('return '):
            col.violation('end', name, f'it ends with "{how}" after {nums["steps"]} steps')
            return
        col.count('followed to the end')
        col.count('ended: ' + how)
    if nums['steps'] > 10:
        col.nontriv(name)
    col.sample('watched', [name, prog, how, nums])


def run(ctx):
    names = sorted((p.stem for p in (paths.REPO / 'machines' / 'structured').glob('*.c')
                    if p.stem.isdigit()), key=int, reverse=True)
    items = []
    for n in names:
        if ctx.quick:
            lim = 200_000_000 if n in LONG else 100_000_000
        else:
            lim = LONG.get(n, 100_000_000)
        items.append((n, lim))
    ctx.map('case', items, mem=0, cpu=1000, chunk=1)
    if not ctx.counters.get('compiled, but not watched'):
        ctx.need('followed to the end', 10)
        ctx.need('followed for a part', 1)
