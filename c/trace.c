/* Runs functions made of C programs next to a table, step by step.

   The programs are compiled with -fsanitize-coverage=trace-pc, so that a
   callback comes at least once between any two steps; it compares the state of
   the tape with the table's own run whenever STEPS has moved. */
#include <setjmp.h>
#include <stdio.h>
#include <string.h>

#include "trace.h"

static struct spec now;         /* what runs, and on what tape */
static jmp_buf out;
static long ended;
static const char *wrong;
static char what[200];
static long last, calls, total, horizon;
static int over;                /* the table's run ended: H must come next */

/* the table's run */
static short tape[WIDE];
static long pos, steps, marks, state;
static long lo, hi;
static int undefined;

static int ref_step(void)
{
  const struct instr *i = &now.table[state][tape[pos]];
  if (i->state == -2) return 0;
  if (i->color && !tape[pos]) marks++;
  if (!i->color && tape[pos]) marks--;
  tape[pos] = i->color;
  pos += i->shift;
  if (pos < lo) lo = pos;
  if (pos > hi) hi = pos;
  steps++;
  state = i->state;
  if (state == -1) { undefined = 1; over = 1; }
  if (now.blank_ends && !marks) over = 1;
  return 1;
}

static void stop(const char *why)
{
  wrong = why;
  longjmp(out, 1);
}

static void look(const struct view *v)
{
  long at = v->pos - now.center;
  while (steps < v->steps) {
    if (over) stop("goes on after its end");
    long was = pos;
    if (!ref_step()) {
      if (now.open) longjmp(out, 2);
      stop("goes on where there is no instruction");
    }
    total++;
    if (steps == v->steps && now.tape(was - WIDE / 2 + now.center) != tape[was]) {
      snprintf(what, sizeof what, "step %ld: wrote %d, not %d", steps,
               now.tape(was - WIDE / 2 + now.center), tape[was]);
      stop(what);
    }
  }
  if (steps != v->steps) stop("steps go back");
  if (at != pos - WIDE / 2) {
    snprintf(what, sizeof what, "step %ld: at %ld, not %ld", steps, at,
             pos - WIDE / 2);
    stop(what);
  }
  if (v->marks != marks) {
    snprintf(what, sizeof what, "step %ld: %ld marks, not %ld", steps,
             v->marks, marks);
    stop(what);
  }
}

void trace_point(const struct view *v)
{
  if (v->steps == last) {
    if (++calls > 1000) stop("no step for long");
    return;
  }
  calls = 0;
  look(v);
  last = v->steps;
  if (over) return;
  if (now.inside && (pos < now.least || pos > now.most)) {
    snprintf(what, sizeof what, "leaves the cells it has, at step %ld", steps);
    stop(what);
  }
  if (steps >= horizon || pos < 2 || pos > WIDE - 3 ||
      (!now.inside && (pos <= now.least || pos >= now.most)))
    longjmp(out, 2);
}

long trace_steps(void) { return steps; }

void trace_assert(const char *text)
{
  snprintf(what, sizeof what, "assertion %s", text);
  stop(what);
}

long trace_ended(void) { return ended; }
long trace_total(void) { return total; }

/* cells: the tape it starts on, n of them, the head on number `head` */
const char *trace_run(const struct spec *s, void (*body)(void),
                      const short *cells, int n, int head, long most)
{
  now = *s;
  horizon = most;
  wrong = 0;
  last = calls = steps = marks = state = 0;
  over = undefined = 0;
  state = now.start;
  memset(tape + lo, 0, (hi - lo + 1) * sizeof *tape);
  pos = WIDE / 2;
  lo = pos - n;
  hi = pos + n;
  for (int i = 0; i < n; i++) {
    tape[pos - head + i] = cells[i];
    marks += cells[i] != 0;
  }
  now.reset(cells, n, head, marks, horizon);
  switch (setjmp(out)) {
  case 0: {
    body();
    struct view v = now.view();
    look(&v);
    if (!over) {
      /* it may stop where the table spins on the blank edge */
      const struct instr *i = &now.table[state][tape[pos]];
      int spins = i->state == state && !tape[pos];
      for (long p = pos + i->shift; spins && p > 0 && p < WIDE - 1; p += i->shift)
        if (tape[p]) spins = 0;
      if (!(now.spin_ends && spins) && i->state != -2)
        return "ends before the program does";
    }
    ended++;
    return wrong;
  }
  case 2: return 0;
  default: return wrong;
  }
}
