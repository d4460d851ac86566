/* Reference for the enumerators: cell by cell, written from the meaning of their output.
 * Input lines: states colors limit, then the instructions, as numbers: color dir state (state < 0: halt).
 * Output: one line per program: steps marks why   (why: h halt, b blank, s spin-out, l limit) */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
int main(void) {
  static int tab[16][16][3];
  int ns, nc;
  long lim;
  while (scanf("%d %d %ld", &ns, &nc, &lim) == 3) {
    for (int s = 0; s < ns; s++)
      for (int c = 0; c < nc; c++)
        if (scanf("%d %d %d", &tab[s][c][0], &tab[s][c][1], &tab[s][c][2]) != 3) return 1;
    unsigned char *mem = calloc(2 * lim + 8, 1), *t = mem + lim + 4;
    long pos = 0, lo = 0, hi = 0, steps = 0, marks = 0;
    int st = 0;
    char why = 'l';
    while (steps < lim) {
      int c = t[pos], *i = tab[st][c];
      /* a blank square at the end of what was visited, and the same again beyond it, for ever */
      if (!c && i[2] == st && ((i[1] < 0 && pos == lo) || (i[1] > 0 && pos == hi))) { why = 's'; break; }
      steps++;
      marks += (i[0] != 0) - (c != 0);
      t[pos] = i[0];
      if (!marks) { why = 'b'; break; }
      pos += i[1];
      if (pos < lo) lo = pos;
      if (pos > hi) hi = pos;
      if (i[2] < 0) { why = 'h'; break; }
      st = i[2];
    }
    printf("%ld %ld %c %ld %ld\n", steps, marks, why, lo, hi);
    free(mem);
  }
  return 0;
}
