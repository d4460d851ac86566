/* Online monitor of a C translation of a Turing machine.
 *
 * The translation is compiled with -fsanitize-coverage=trace-stores, so that every store it
 * makes calls back here first; the machine it is a translation of is stepped alongside, from
 * its table, on a tape of its own.  Nothing in the translation is changed: `main` is renamed and
 * an early `return` can be made conditional.
 *
 * Expected before this file: BBV_TABLE rows, BBV_COLORS, BBV_LIMIT, XLIMIT.
 */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <assert.h>

#define BBV_NS __attribute__((no_sanitize("coverage","address","undefined")))

static int bbv_never;
struct bbv_instr { short color, shift, trans; };   /* trans: -1 stop, -2 undefined */
static const struct bbv_instr bbv_table[][BBV_COLORS] = BBV_TABLE;

#ifdef BBV_SKIP_RETURN
#define return if (bbv_never) return
#endif
#define main bbv_main
#include BBV_SOURCE
#undef main
#undef return

static long bbv_n, bbv_limit = BBV_LIMIT, bbv_marks, bbv_other;
#ifndef BBV_START
#define BBV_START 0
#endif
static int bbv_on, bbv_state = BBV_START, bbv_stop, bbv_dir, bbv_left;
static long bbv_pos, bbv_min, bbv_max;
static short bbv_tape[TAPELEN + 4];
#define T(p) bbv_tape[(p) + 1]

BBV_NS static void bbv_say(const char *kind, const char *what, long a, long b) {
  printf("%s step %ld: %s (%ld, %ld)\n", kind, bbv_n, what, a, b);
}
BBV_NS static void bbv_end(const char *how) {
  bbv_on = 0;
  printf("END %s steps=%ld marks=%ld span=%ld state=%d\n", how, bbv_n, bbv_marks, bbv_max - bbv_min, bbv_state);
  fflush(stdout);
  _exit(0);
}
BBV_NS static void bbv_bad(const char *what, long a, long b) {
  bbv_say("BAD", what, a, b);
  bbv_end("bad");
}

/* The head is about to move: it stands where the last step left it, and the square shows
 * what the step that is being made writes. */
BBV_NS static void bbv_move(void) {
  if (!bbv_on) return;
  long pos = (long) (int) POS;
  if (bbv_stop) bbv_bad("a step is made although the machine has stopped", bbv_stop, 0);
  if (pos != bbv_pos) bbv_bad("the head is elsewhere", pos - CENTER_SQUARE, bbv_pos - CENTER_SQUARE);
  if (pos < 0 || pos >= TAPELEN) bbv_end("left the tape");
  if (bbv_n >= bbv_limit) {
    if (STEPS != bbv_n && STEPS != bbv_n + 1) bbv_bad("the steps are miscounted", STEPS, bbv_n);
    bbv_end("limit");
  }
  const struct bbv_instr *in = &bbv_table[bbv_state][T(pos)];
  if (in->trans == -2) bbv_bad("a step is made where the program has none", bbv_state, T(pos));
  if (TAPE[pos] != in->color) bbv_bad("another color is written", TAPE[pos], in->color);
  bbv_marks += (in->color != 0) - (T(pos) != 0);
  T(pos) = in->color;
  bbv_pos += in->shift;
  bbv_n++;
  if (bbv_pos < bbv_min) bbv_min = bbv_pos;
  if (bbv_pos > bbv_max) bbv_max = bbv_pos;
  if (in->trans < 0) bbv_stop = 1;
  else bbv_state = in->trans;
  if (!bbv_marks && !bbv_stop) bbv_stop = 2;
  if (bbv_pos < 0 || bbv_pos >= TAPELEN) {
#ifdef BBV_MAY_LEAVE
    bbv_end("left the tape");
#endif
    bbv_left = 1;
  }
}

BBV_NS static void bbv_store(void *p, int n) {
  if (!bbv_on) return;
  if (p == (void *) &POS) { bbv_move(); return; }
  if ((char *) p >= (char *) TAPE && (char *) p < (char *) (TAPE + TAPELEN)) {
    long i = ((char *) p - (char *) TAPE) / (long) sizeof TAPE[0];
    if (i != bbv_pos) bbv_bad("a square away from the head is written", i - CENTER_SQUARE, bbv_pos - CENTER_SQUARE);
    if (n != (int) sizeof TAPE[0]) bbv_bad("a store of another size", n, 0);
  }
  else bbv_other++;
}
BBV_NS void __sanitizer_cov_store1(unsigned char *p) { bbv_store(p, 1); }
BBV_NS void __sanitizer_cov_store2(unsigned short *p) { bbv_store(p, 2); }
BBV_NS void __sanitizer_cov_store4(unsigned *p) { bbv_store(p, 4); }
BBV_NS void __sanitizer_cov_store8(unsigned long *p) { bbv_store(p, 8); }
BBV_NS void __sanitizer_cov_store16(void *p) { bbv_store(p, 16); }

/* The translation has stopped. */
BBV_NS static void bbv_finish(const char *how) {
  if (!bbv_on) return;
  bbv_on = 0;
  if (!bbv_stop && bbv_table[bbv_state][T(bbv_pos)].trans == -2) bbv_stop = 4;
  if (!bbv_stop) {
    const struct bbv_instr *in = &bbv_table[bbv_state][T(bbv_pos)];
    long p = bbv_pos;
    if (in->trans == bbv_state && !T(p)) {
      while (p >= bbv_min && p <= bbv_max && p >= 0 && p < TAPELEN && !T(p)) p += in->shift;
      if (p < bbv_min || p > bbv_max) bbv_stop = 3;
    }
  }
  if (!bbv_stop) bbv_bad("it stops although the machine goes on", bbv_state, T(bbv_pos));
  if (POS != bbv_pos) bbv_bad("the head stops elsewhere", (int) POS - CENTER_SQUARE, bbv_pos - CENTER_SQUARE);
  if (STEPS != bbv_n) bbv_bad("the steps are miscounted at the end", STEPS, bbv_n);
  if (MARKS != bbv_marks) bbv_bad("the marks are miscounted at the end", MARKS, bbv_marks);
  for (long i = 0; i < TAPELEN; i++)
    if (TAPE[i] != T(i)) bbv_bad("the tape differs at the end", i - CENTER_SQUARE, TAPE[i]);
  static const char *ends[] = { 0, "halt", "blank", "spin-out", "undefined" };
  char buf[80];
  snprintf(buf, sizeof buf, "%s %s", how, ends[bbv_stop]);
  bbv_end(buf);
}
BBV_NS static void bbv_abort(int sig) { (void) sig; bbv_finish("assert"); _exit(1); }

BBV_NS int main(void) {
  signal(SIGABRT, bbv_abort);
  bbv_pos = CENTER_SQUARE;
  bbv_min = bbv_max = bbv_pos;
  bbv_on = 1;
#ifdef BBV_NEED_MIN
  if (CENTER_SQUARE + (BBV_NEED_MIN) < 0 || CENTER_SQUARE + (BBV_NEED_MAX) >= TAPELEN)
    bbv_bad("the tape does not hold the run", TAPELEN, (BBV_NEED_MAX) - (BBV_NEED_MIN));
#endif
  bbv_main();
  bbv_finish("return");
  return 0;
}
