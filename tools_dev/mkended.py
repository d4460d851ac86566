"""Collects programs that end (halt, spin out, become blank) late: the programs about which a wrong
refutation would be wrong.  Writes bbv/data/ended.json."""
import json, multiprocessing, random, sys
sys.path.insert(0, '/verif')
from bbv import gen, sim

SIZES = {(3,2):400,(2,3):400,(4,2):2500,(3,3):2000,(2,4):2000,(5,2):2500,(2,5):800,(4,3):1200,(3,4):1200,(6,2):1500,(8,2):500}

def work(args):
    (ns, nc), want, seed = args
    rng = random.Random(f'ended {ns} {nc} {seed}')
    out = {'halt': {}, 'spin': {}, 'blank': {}}
    tries = 0
    while tries < 60000 and any(len(v) < want // 8 for v in out.values()):
        tries += 1
        rows = [[None]*nc for _ in range(ns)]
        rows[0][0] = (1, True, 1)
        left, maxs, maxc = ns*nc-1, 1, 1
        for _ in range(ns*nc):
            r = sim.Prog(rows).run(20000)
            if r['status'] != 'undef':
                break
            prog = sim.show(rows)
            if r['steps'] >= 12 + 4*ns*nc // 2 and len(out['halt']) < want//8:
                out['halt'][prog] = r['steps']
            if left <= 0:
                break
            s, c = r['state'], r['scan']
            maxs, maxc = max(maxs, s), max(maxc, c)
            i = (rng.randrange(min(nc, maxc+2)), rng.random() < .5, rng.randrange(min(ns, maxs+2)))
            rows[s][c] = i
            maxs, maxc = max(maxs, i[2]), max(maxc, i[0])
            left -= 1
        else:
            continue
        if r['status'] == 'undef': continue
        f = sim.Prog(rows).facts(100000)
        prog = sim.show(rows)
        if f['spin'] is not None and f['spin'] >= 8 and len(out['spin']) < want//8: out['spin'][prog] = f['spin']
        if f['blank'] is not None and f['blank'] >= 5 and len(out['blank']) < want//8: out['blank'][prog] = f['blank']
    return out

if __name__ == '__main__':
    jobs = [(sz, n, k) for sz, n in SIZES.items() for k in range(8)]
    res = {'halt': {}, 'spin': {}, 'blank': {}}
    with multiprocessing.Pool(8) as p:
        for o in p.imap(work, jobs):
            for k in res: res[k].update(o[k])
    for k in res: print(k, len(res[k]), max(res[k].values()))
    json.dump({k: sorted(v) for k, v in res.items()}, open('/verif/bbv/data/ended.json','w'), indent=0)
