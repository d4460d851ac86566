"""Run the Python machine and judge its report against the cell-by-cell machine."""
from . import sim


def expand_tape(tape, cap=1 << 21):
    """Run-length tape -> (bytes, head), or None when too large or symbolic."""
    total = 1
    for span in (tape.lspan, tape.rspan):
        for b in span:
            if not isinstance(b.count, int):
                return None
            total += b.count
    if total > cap:
        return None
    left = b''.join(bytes([b.color]) * b.count for b in reversed(tape.lspan))
    right = b''.join(bytes([b.color]) * b.count for b in tape.rspan)
    return left + bytes([tape.scan]) + right, len(left)


def trim(cells, head):
    """Cells relative to the head without blank padding: {offset: colour} as a canonical tuple."""
    nz = [i for i, c in enumerate(cells) if c]
    if not nz:
        return (0, b'')
    return (nz[0] - head, bytes(cells[nz[0]:nz[-1] + 1]))


def as_int(x, cap=10 ** 7):
    if isinstance(x, int):
        return x
    return None
