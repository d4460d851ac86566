/* Reference for the enumeration: walks the normal-form tree cell by cell, apart from the code under test.
 * treeref STATES COLORS HALT LIMIT: number of programs to be listed, the sum of the CRC-32 of their
 * texts, and the sum of those of their texts followed by '#'. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

enum { HALF = 4096 };
typedef struct { int def, color, right, state; } Instr;

static int S, C, LIM, slots;
static Instr P[10][10];
static unsigned char T[2 * HALF];
static uint64_t count, sum1, sum2;
static uint32_t crctab[256];

static void list(void) {
  char text[512], *p = text;
  for (int s = 0; s < S; s++) {
    if (s) *p++ = ' ', *p++ = ' ';
    for (int c = 0; c < C; c++) {
      if (c) *p++ = ' ';
      Instr i = P[s][c];
      if (i.def) *p++ = '0' + i.color, *p++ = i.right ? 'R' : 'L', *p++ = 'A' + i.state;
      else *p++ = '.', *p++ = '.', *p++ = '.';
    }
  }
  uint32_t x = ~0u;
  for (char *q = text; q < p; q++) x = crctab[(x ^ *q) & 255] ^ x >> 8;
  count++;
  sum1 += ~x;
  sum2 += ~(crctab[(x ^ '#') & 255] ^ x >> 8);
}

static int any(int from, int to) {
  for (int q = from; q <= to; q++) if (T[q]) return 1;
  return 0;
}

/* Up to LIM cycles (a sweep over equal cells is one).  1: at an undefined slot, 2: spins out or is blank, 0: neither */
static int run(int *st, int *pos, int *lo, int *hi) {
  for (int k = 0; k < LIM; k++) {
    int s = *st, c = T[*pos], d;
    Instr i = P[s][c];
    if (!i.def) return 1;
    d = i.right ? 1 : -1;
    if (i.state == s && !c && !(i.right ? any(*pos + 1, *hi) : any(*lo, *pos - 1))) return 2;
    int mn = *lo, mx = *hi;                     /* the marks at the ends of the tape */
    while (mn <= mx && !T[mn]) mn++;
    while (mx >= mn && !T[mx]) mx--;
    int edge = mn > mx ? *pos : i.right ? mx : mn;
    do {
      T[*pos] = i.color;
      *pos += d;
      if (*pos < *lo) *lo = *pos;
      if (*pos > *hi) *hi = *pos;
      if (abs(*pos - HALF) > HALF - 2) exit(3);
    } while (i.state == s && T[*pos] == c && !(!c && (*pos - edge) * d > 0));
    *st = i.state;
    if (!any(*lo, *hi)) return 2;
  }
  return 0;
}

static void grow(int n, int ms, int mc, int st, int pos, int lo, int hi) {
  unsigned char save[hi - lo + 1];
  int a = lo, b = hi, r;
  if (n == slots) r = 0;
  else {
    memcpy(save, T + lo, sizeof save);
    r = run(&st, &pos, &a, &b);
  }
  if (r != 1) { if (ms == S && mc == C) list(); }
  else {
    int c = T[pos], as = ms < S ? ms + 1 : S, ac = mc < C ? mc + 1 : C;
    for (int co = 0; co < ac; co++)
      for (int rr = 0; rr < 2; rr++)
        for (int ns = 0; ns < as; ns++) {
          P[st][c] = (Instr){1, co, rr, ns};
          grow(n + 1, ns == ms ? ms + 1 : ms, co == mc ? mc + 1 : mc, st, pos, a, b);
        }
    P[st][c].def = 0;
  }
  if (n != slots) {
    memset(T + a, 0, b - a + 1);
    memcpy(T + lo, save, sizeof save);
  }
}

int main(int n, char **v) {
  if (n < 5) return 2;
  S = atoi(v[1]), C = atoi(v[2]), slots = S * C - atoi(v[3]), LIM = atoi(v[4]);
  for (uint32_t i = 0; i < 256; i++) {
    uint32_t x = i;
    for (int k = 0; k < 8; k++) x = x & 1 ? x >> 1 ^ 0xEDB88320u : x >> 1;
    crctab[i] = x;
  }
  P[0][0] = (Instr){1, 1, 1, 1};
  T[HALF] = 1;
  grow(1, 2, 2, 1, HALF + 1, HALF, HALF + 1);
  printf("%lu %lu %lu\n", count, sum1, sum2);
}
