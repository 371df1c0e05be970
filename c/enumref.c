/* What an enumerator says of a stream of programs, each run on a tape of its
   own.  enumref STATES COLORS LIMIT SHOW: a program a line, all its
   instructions but the first (1RB) one after the other.  SHOW 1: the lines the
   enumerator would print; SHOW 0: for each program the steps, or -1. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static short *tape;
static long room;

int main(int argc, char **argv)
{
  int S = atoi(argv[1]), C = atoi(argv[2]);
  long limit = atol(argv[3]);
  int show = atoi(argv[4]);
  room = limit + 2;
  tape = calloc(2 * room + 1, sizeof *tape);
  char line[256];
  long num = 0;
  (void)argc;
  while (fgets(line, sizeof line, stdin)) {
    num++;
    char prog[256] = "1RB";
    strcat(prog, line);
    prog[strcspn(prog, "\n")] = 0;
    if ((int)strlen(prog) != 3 * S * C) { fprintf(stderr, "bad %s\n", line); return 2; }
    long at = room, lo = at, hi = at, steps = 0, marks = 0;
    int state = 0, told = 0;
    while (steps < limit) {
      const char *i = prog + 3 * (state * C + tape[at]);
      int color = i[0] - '0', way = i[1] == 'L' ? -1 : 1, to = i[2] - 'A';
      steps++;
      if (!tape[at] && to == state && at == (way < 0 ? lo : hi)) { told = 1; break; }
      marks += (color != 0) - (tape[at] != 0);
      tape[at] = color;
      if (!marks) { told = 1; break; }
      at += way;
      if (at < lo) lo = at;
      if (at > hi) hi = at;
      state = to;
      if (to == 7) { told = 1; break; }
    }
    if (told && steps >= limit) told = 0;
    memset(tape + lo, 0, (hi - lo + 1) * sizeof *tape);
    if (!show) printf("%ld\n", told ? steps : -1);
    else if (told) {
      printf("%ld |", num);
      for (int s = 0; s < S; s++)
        for (int c = 0; c < C; c++)
          printf("%s %.3s", s && !c ? " " : "", prog + 3 * (s * C + c));
      printf(" | %ld | %ld\n", steps, marks);
    }
  }
  if (show) printf("done\n");
  return 0;
}
