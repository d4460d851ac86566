"""Programs up to the names of their states and colours, and direction."""
from . import sim


def mirror(rows):
    return [[i and (i[0], not i[1], i[2]) for i in row] for row in rows]


def rename(rows, smap, cmap):
    """smap/cmap: lists, old number -> new number (permutations)."""
    ns, nc = sim.dims(rows)
    out = [[None] * nc for _ in range(ns)]
    for s, row in enumerate(rows):
        for c, i in enumerate(row):
            if i is not None:
                out[smap[s]][cmap[c]] = (cmap[i[0]] if i[0] < nc else i[0], i[1],
                                         smap[i[2]] if i[2] < ns else i[2])
    return out


def shuffled(rng, rows):
    ns, nc = sim.dims(rows)
    s, c = list(range(1, ns)), list(range(1, nc))
    rng.shuffle(s)
    rng.shuffle(c)
    rows = rename(rows, [0] + s, [0] + c)
    return mirror(rows) if rng.random() < .5 else rows


def first_mark(rows):
    """(state in which the first mark is made, steps until then), or None when the run from the
    blank tape ends or goes round before any mark is made."""
    s, seen = 0, []
    while s not in seen:
        seen.append(s)
        i = rows[s][0] if s < len(rows) else None
        if i is None:
            return None
        if i[0]:
            return s, len(seen) - 1
        s = i[2]
    return None


def canonical(rows):
    """The one program in normal form with this behaviour, or None when the order of names is not
    settled by mention (a colour's instructions come before any mention of it) or some state or
    colour is not reachable."""
    ns, nc = sim.dims(rows)
    fm = first_mark(rows)
    start = fm[0] if fm else 0
    first = rows[start][0]
    if first is None:
        return None
    if not first[1]:
        rows = mirror(rows)
    states, colors = [start], [0]
    k = 0
    while k < len(states):
        row = rows[states[k]] if states[k] < len(rows) else [None] * nc
        for j in range(nc):
            if j >= len(colors):
                if nc == 2 and any(r[1] for r in rows):
                    colors.append(1)
                elif any(row[c] is not None for c in range(nc) if c not in colors):
                    return None
                else:
                    break
            i = row[colors[j]]
            if i is not None:
                if i[0] not in colors:
                    colors.append(i[0])
                if i[2] not in states:
                    states.append(i[2])
        k += 1
    if len(states) != ns or len(colors) != nc or max(states) >= ns or max(colors) >= nc:
        return None
    return [[None if (i := rows[s][c]) is None else
             (colors.index(i[0]), i[1], states.index(i[2])) for c in colors] for s in states]


def same_run(p, q, limit, skip=True):
    """Follow both programs from blank tapes.  None when q makes the run of p up to names and
    direction (after the steps before p's first mark, with skip), else what differs.
    Also returns the renaming that was seen, and the number of steps compared."""
    smap, cmap, flip = {}, {0: 0}, None
    back_s, back_c = {}, {0: 0}
    t1, t2 = {}, {}
    h1 = h2 = s1 = s2 = 0
    if skip and (fm := first_mark(p)):
        for _ in range(fm[1]):
            i = p[s1][0]
            h1 += 1 if i[1] else -1
            s1 = i[2]
        h1 = 0
    done = 0

    def link(m, b, x, y):
        return m.setdefault(x, y) == y and b.setdefault(y, x) == x

    def get(rows, s, c):
        return rows[s][c] if s < len(rows) and c < len(rows[s]) else None

    for done in range(limit):
        c1, c2 = t1.get(h1, 0), t2.get(h2, 0)
        if not link(smap, back_s, s1, s2):
            return f'step {done}: state {chr(65 + s1)} is {chr(65 + s2)}', (smap, cmap, flip), done
        if not link(cmap, back_c, c1, c2):
            return f'step {done}: color {c1} is {c2}', (smap, cmap, flip), done
        i, j = get(p, s1, c1), get(q, s2, c2)
        if i is None or j is None:
            if i is not j:
                return f'step {done}: only one of them halts', (smap, cmap, flip), done
            return None, (smap, cmap, flip), done
        if flip is None:
            flip = i[1] != j[1]
        elif flip != (i[1] != j[1]):
            return f'step {done}: direction', (smap, cmap, flip), done
        if not link(cmap, back_c, i[0], j[0]):
            return f'step {done}: prints {i[0]} / {j[0]}', (smap, cmap, flip), done
        t1[h1], t2[h2] = i[0], j[0]
        h1 += 1 if i[1] else -1
        h2 += 1 if j[1] else -1
        s1, s2 = i[2], j[2]
    return None, (smap, cmap, flip), done + 1
