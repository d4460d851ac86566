"""An independent model of a tape: each side a list of (color, count), nearest first, in canonical form."""


def norm(blocks):
    out = []
    for c, n in blocks:
        if n == 0:
            continue
        if out and out[-1][0] == c:
            out[-1] = c, out[-1][1] + n
        else:
            out.append((c, n))
    while out and out[-1][0] == 0:
        out.pop()
    return out


def step(left, scan, right, shift, color, skip):
    """(left, scan, right, cells moved)"""
    ahead, behind = (right, left) if shift else (left, right)
    ahead = list(ahead)
    moved = 1
    if skip and ahead and ahead[0][0] == scan:
        moved += ahead.pop(0)[1]
    if ahead:
        c, n = ahead[0]
        ahead[0] = c, n - 1
        new = c
    else:
        new = 0
    ahead = norm(ahead)
    behind = norm([(color, moved)] + list(behind))
    return (behind, new, ahead, moved) if shift else (ahead, new, behind, moved)


def cells_step(cells, pos, shift, color, skip):
    """The same on single cells (a dict of what is not blank): (pos, moved)."""
    d = 1 if shift else -1
    scan = cells.get(pos, 0)
    moved = 1
    far = (max(cells) if shift else min(cells)) if cells else pos
    while skip and cells.get(pos + d * moved, 0) == scan and (scan or (far - pos - d * moved) * d > 0):
        moved += 1
    for i in range(moved):
        if color:
            cells[pos + d * i] = color
        else:
            cells.pop(pos + d * i, None)
    return pos + d * moved, moved


def from_cells(cells, pos):
    lo, hi = (min(cells), max(cells)) if cells else (pos, pos)
    left = norm([(cells.get(i, 0), 1) for i in range(pos - 1, lo - 1, -1)])
    right = norm([(cells.get(i, 0), 1) for i in range(pos + 1, hi + 1)])
    return left, cells.get(pos, 0), right


def canonical(side):
    return norm(side) == list(side)


def show(left, scan, right):
    def b(c, n):
        return f'{c}' if n == 1 else f'{c}^{n}'
    return ' '.join([b(*x) for x in reversed(left)] + [f'[{scan}]'] + [b(*x) for x in right])


def marks(left, scan, right):
    return sum(n for c, n in left + right if c) + (scan != 0)
