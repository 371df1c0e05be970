/* What a search over programs has to hand over.  treeref STATES COLORS HALT
   LIMIT: every way to give instructions to the slots that a run from the blank
   tape comes to, new states and colours in order, until it leaves the blank
   edge for good, is blank, takes LIMIT steps (sweeps) after the last instruction given,
   or has as many as it may have. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define ROOM 4100
static int S, C, halt;
static long limit;
struct instr { signed char set, color, way, to; };
static struct instr prog[12][12];

static void tell(void)
{
  int last_state = 0, last_color = 0;
  for (int s = 0; s < S; s++)
    for (int c = 0; c < C; c++) {
      struct instr i = prog[s][c];
      if (i.set && i.to == S - 1) last_state = 1;
      if (i.set && i.color == C - 1) last_color = 1;
    }
  if (!last_state || !last_color) return;     /* of a smaller size */
  for (int s = 0; s < S; s++) {
    for (int c = 0; c < C; c++) {
      struct instr i = prog[s][c];
      if (s && !c) printf("  "); else if (c) printf(" ");
      if (i.set) printf("%d%c%c", i.color, i.way > 0 ? 'R' : 'L', 'A' + i.to);
      else printf("...");
    }
  }
  printf("\n");
}

static void grow(const signed char *old, int at, int state, int lo, int hi,
                 int given)
{
  signed char tape[2 * ROOM + 1];
  memcpy(tape, old, sizeof tape);
  for (long n = 0; n < limit; n++) {
    struct instr i = prog[state][tape[at]];
    if (!i.set) goto need;
    if (i.to == state) {
      int gone = 1;
      for (int p = at; gone && p >= lo && p <= hi; p += i.way)
        if (tape[p]) gone = 0;
      if (gone && !tape[at]) { tell(); return; }
    }
    int seen = tape[at];        /* one go over cells alike in one state is one step */
    do {
      tape[at] = i.color;
      at += i.way;
      if (at < lo) lo = at;
      if (at > hi) hi = at;
    } while (i.to == state && tape[at] == seen);
    state = i.to;
    int blank = 1;
    for (int p = lo; blank && p <= hi; p++) if (tape[p]) blank = 0;
    if (blank) { tell(); return; }
  }
  tell();
  return;
 need:;
  struct instr *slot = &prog[state][tape[at]];
  int states = 0, colors = 0;
  for (int s = 0; s < S; s++)
    for (int c = 0; c < C; c++)
      if (prog[s][c].set) {
        if (prog[s][c].to > states) states = prog[s][c].to;
        if (prog[s][c].color > colors) colors = prog[s][c].color;
      }
  for (int c = 0; c < C && c <= colors + 1; c++)
    for (int w = -1; w < 2; w += 2)
      for (int s = 0; s < S && s <= states + 1; s++) {
        *slot = (struct instr){ 1, c, w, s };
        if (given + 1 == S * C - halt) tell();
        else grow(tape, at, state, lo, hi, given + 1);
        slot->set = 0;
      }
}

int main(int argc, char **argv)
{
  if (argc < 5) return 2;
  S = atoi(argv[1]); C = atoi(argv[2]); halt = atoi(argv[3]); limit = atol(argv[4]);
  static signed char tape[2 * ROOM + 1];
  prog[0][0] = (struct instr){ 1, 1, 1, 1 };
  tape[ROOM] = 1;
  grow(tape, ROOM + 1, 1, ROOM, ROOM + 1, 1);
  return 0;
}
