/* Cell-by-cell Turing machine simulator: the reference the monitors compare
 * against.  No run-length encoding, no acceleration, one step at a time. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

typedef int64_t i64;

/* instr[(state*nc+color)*3] = color, shift(0/1), next; color -1 = undefined */
typedef struct {
    unsigned char *tape; i64 size, head, lo, hi; /* [lo,hi] = visited cells */
    int state; i64 steps; i64 nonzero;
} M;

static int grow(M *m, i64 cap) {
    i64 add = m->size < 4096 ? 4096 : m->size;
    if (m->size + 2 * add > cap) add = (cap - m->size) / 2;
    if (add < 1) return 0;
    unsigned char *t = calloc(m->size + 2 * add, 1);
    if (!t) return 0;
    memcpy(t + add, m->tape, m->size);
    free(m->tape);
    m->tape = t; m->size += 2 * add; m->head += add; m->lo += add; m->hi += add;
    return 1;
}

enum { LIMIT = 0, UNDEF = 1, SPIN = 2, NOSPACE = 3, HIT = 4, BLANKREP = 5, CYCLE = 6 };

/* out: status, steps, state, scan, nonzero, head-lo, width(lo..hi), maxstate.. ;
 * blanks[s] = first step at which the tape was blank in state s after a 0-print, or -1
 * flags: 1 = stop on spinout, 2 = stop when blank repeats / blank in state 0
 * counts (optional): visits per slot.
 * cells: in/out buffer of capacity cellcap (final tape lo..hi copied if fits). */
int naive_run(const int *instr, int ns, int nc,
              const unsigned char *init, i64 ninit, i64 head0, int state0,
              i64 maxsteps, i64 tapecap, int flags,
              i64 *out, i64 *blanks, i64 *counts,
              unsigned char *cells, i64 cellcap)
{
    M m; memset(&m, 0, sizeof m);
    m.size = ninit + 8192; m.tape = calloc(m.size, 1);
    memcpy(m.tape + 4096, init, ninit);
    m.head = 4096 + head0; m.lo = 4096; m.hi = 4096 + (ninit ? ninit - 1 : 0);
    if (m.head < m.lo) m.lo = m.head;
    if (m.head > m.hi) m.hi = m.head;
    m.state = state0;
    for (i64 i = 0; i < ninit; i++) m.nonzero += init[i] != 0;
    for (int i = 0; i < ns && blanks; i++) blanks[i] = -1;
    i64 nr = 0;   /* non-blank cells strictly right of the head */
    for (i64 i = head0 + 1; i < ninit; i++) nr += init[i] != 0;
    int st = LIMIT;
    while (m.steps < maxsteps) {
        int scan = m.tape[m.head];
        if (m.state >= ns || scan >= nc) { st = UNDEF; break; }
        const int *in = instr + (m.state * nc + scan) * 3;
        if (in[0] < 0) { st = UNDEF; break; }
        if ((flags & 1) && scan == 0 && in[2] == m.state) {
            /* is everything in the direction of travel blank? (scan is 0 here) */
            int clear = in[1] ? nr == 0 : m.nonzero - nr == 0;
            if (clear) { st = SPIN; break; }
        }
        if (counts) counts[m.state * nc + scan]++;
        m.nonzero += (in[0] != 0) - (scan != 0);
        m.tape[m.head] = in[0];
        if (in[1]) { m.head++; nr -= m.tape[m.head] != 0; }
        else { m.head--; nr += in[0] != 0; }
        m.state = in[2];
        m.steps++;
        if (m.head < m.lo) m.lo = m.head;
        if (m.head > m.hi) m.hi = m.head;
        if (m.head <= 0 || m.head >= m.size - 1)
            if (!grow(&m, tapecap)) { st = NOSPACE; break; }
        if (blanks && in[0] == 0 && m.nonzero == 0) {
            if (blanks[m.state] >= 0 || m.state == 0) {
                if (blanks[m.state] < 0) blanks[m.state] = m.steps;
                if (flags & 2) { st = BLANKREP; break; }
            } else blanks[m.state] = m.steps;
        }
    }
    out[0] = st; out[1] = m.steps; out[2] = m.state; out[3] = m.tape[m.head];
    out[4] = m.nonzero; out[5] = m.head - m.lo; out[6] = m.hi - m.lo + 1;
    if (cells && m.hi - m.lo + 1 <= cellcap) memcpy(cells, m.tape + m.lo, m.hi - m.lo + 1);
    free(m.tape);
    return st;
}

/* From configuration (init, head0, state0), does the machine reach (target, thead, tstate)
 * within maxsteps (at least minsteps)?  Tapes are compared up to blank padding, relative to the head.
 * Returns HIT with out[1]=steps, else why the search stopped.  */
int naive_reach(const int *instr, int ns, int nc,
                const unsigned char *init, i64 ninit, i64 head0, int state0,
                const unsigned char *target, i64 ntarget, i64 thead, int tstate,
                i64 minsteps, i64 maxsteps, i64 tapecap, i64 *out)
{
    M m; memset(&m, 0, sizeof m);
    m.size = ninit + 8192; m.tape = calloc(m.size, 1);
    memcpy(m.tape + 4096, init, ninit);
    m.head = 4096 + head0; m.lo = 4096; m.hi = 4096 + ninit - 1; m.state = state0;
    if (m.head < m.lo) m.lo = m.head;
    if (m.head > m.hi) m.hi = m.head;
    i64 tn = 0; int tscan = target[thead];
    for (i64 i = 0; i < ninit; i++) m.nonzero += init[i] != 0;
    for (i64 i = 0; i < ntarget; i++) tn += target[i] != 0;
    int st = LIMIT;
    for (;;) {
        int scan = m.tape[m.head];
        if (m.steps >= minsteps && m.state == tstate && scan == tscan && m.nonzero == tn) {
            i64 off = m.head - thead, i; int ok = 1;
            for (i = 0; i < ntarget; i++) {
                i64 p = off + i;
                int c = (p < 0 || p >= m.size) ? 0 : m.tape[p];
                if (c != target[i]) { ok = 0; break; }
            }
            if (ok) { st = HIT; break; }   /* nonzero counts agree, so the rest is blank */
        }
        if (m.steps >= maxsteps) break;
        if (m.state >= ns || scan >= nc) { st = UNDEF; break; }
        const int *in = instr + (m.state * nc + scan) * 3;
        if (in[0] < 0) { st = UNDEF; break; }
        m.nonzero += (in[0] != 0) - (scan != 0);
        m.tape[m.head] = in[0];
        m.head += in[1] ? 1 : -1;
        m.state = in[2];
        m.steps++;
        if (m.head < m.lo) m.lo = m.head;
        if (m.head > m.hi) m.hi = m.head;
        if (m.head <= 0 || m.head >= m.size - 1)
            if (!grow(&m, tapecap)) { st = NOSPACE; break; }
    }
    out[0] = st; out[1] = m.steps; out[2] = m.state;
    free(m.tape);
    return st;
}

/* What a blank-tape run does, summarised for the deciders' monitors.
 * out: 0 status (LIMIT/UNDEF/NOSPACE), 1 steps, 2 first spin-out step or -1,
 *      3 first step (>0) at which the tape is blank, or -1,
 *      4 marks at the end, 5 state at the end, 6 scan at the end,
 *      7 steps at blank-repeat (proved infinite) or -1 */
int naive_facts(const int *instr, int ns, int nc, i64 maxsteps, i64 tapecap, i64 *out)
{
    M m; memset(&m, 0, sizeof m);
    m.size = 8192; m.tape = calloc(m.size, 1);
    m.head = m.lo = m.hi = 4096;
    i64 spin = -1, blank = -1, rep = -1; unsigned long long seen = 1;
    i64 nr = 0;
    int st = LIMIT;
    while (m.steps < maxsteps) {
        int scan = m.tape[m.head];
        if (m.state >= ns || scan >= nc) { st = UNDEF; break; }
        const int *in = instr + (m.state * nc + scan) * 3;
        if (in[0] < 0) { st = UNDEF; break; }
        if (spin < 0 && scan == 0 && in[2] == m.state) {
            int clear = in[1] ? nr == 0 : m.nonzero - nr == 0;
            if (clear) { spin = m.steps; break; }
        }
        m.nonzero += (in[0] != 0) - (scan != 0);
        m.tape[m.head] = in[0];
        if (in[1]) { m.head++; nr -= m.tape[m.head] != 0; }
        else { m.head--; nr += in[0] != 0; }
        m.state = in[2];
        m.steps++;
        if (m.head < m.lo) m.lo = m.head;
        if (m.head > m.hi) m.hi = m.head;
        if (m.head <= 0 || m.head >= m.size - 1)
            if (!grow(&m, tapecap)) { st = NOSPACE; break; }
        if (in[0] == 0 && m.nonzero == 0) {
            if (blank < 0) blank = m.steps;
            if (seen >> m.state & 1) { rep = m.steps; break; }
            seen |= 1ull << m.state;
        }
    }
    out[0] = st; out[1] = m.steps; out[2] = spin; out[3] = blank; out[4] = m.nonzero;
    out[5] = m.state; out[6] = m.tape[m.head]; out[7] = rep;
    free(m.tape);
    return st;
}
