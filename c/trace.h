#include <stdio.h>
#include <string.h>
#define WIDE 200000

struct instr { short color, shift, state; };    /* -1: halts after it, -2: none */
struct view { long steps, pos, marks; };

struct spec {
  struct instr table[26][12];
  int start;
  int blank_ends, spin_ends;
  int open;                     /* nothing is said of empty slots */
  long center, least, most;     /* the cells there are */
  int inside;                   /* leaving them is wrong */
  short (*tape)(long);
  struct view (*view)(void);
  void (*reset)(const short *, int, int, long, long);
};

void trace_point(const struct view *);
long trace_total(void);
long trace_ended(void);
long trace_steps(void);
void trace_assert(const char *);
const char *trace_run(const struct spec *, void (*)(void), const short *, int, int, long);

/* Each file of programs defines, after machine.h has been included: */
#define QUIET __attribute__((no_sanitize_coverage))
#define TRACE_HOOKS                                                     \
  QUIET static short trace_cell(long at) { return TAPE[at]; }           \
  QUIET static struct view trace_view(void)                             \
  { struct view v = { STEPS, POS, MARKS }; return v; }                  \
  QUIET static void trace_reset(const short *cells, int n, int head,    \
                          long marks, long horizon)                     \
  {                                                                     \
    static long before;                                                 \
    if (before > horizon) { long h = horizon; horizon = before; before = h; } \
    else before = horizon;                                              \
    long from = CENTER_SQUARE - horizon - n - 4,                        \
         to = CENTER_SQUARE + horizon + n + 4;                          \
    if (from < 0) from = 0;                                             \
    if (to > TAPELEN) to = TAPELEN;                                     \
    for (long i = from; i < to; i++) TAPE[i] = 0;                       \
    for (int i = 0; i < n; i++) TAPE[CENTER_SQUARE - head + i] = cells[i]; \
    POS = CENTER_SQUARE; STEPS = 0; MARKS = marks;                      \
    PMIN = CENTER_SQUARE - head;                                        \
    PMAX = CENTER_SQUARE - head + n;                                    \
    if (PMAX <= CENTER_SQUARE) PMAX = CENTER_SQUARE + 1;                \
  }                                                                     \
  static int trace_on;                                                  \
  QUIET void __sanitizer_cov_trace_pc(void)                             \
  {                                                                     \
    if (trace_on) {                                                     \
      struct view v = trace_view();                                     \
      trace_point(&v);                                                  \
    }                                                                   \
  }                                                                     \
  static const long trace_center = CENTER_SQUARE, trace_len = TAPELEN;

struct job {
  int id, colors;
  int from, blank;              /* cells assumed to be blank */
    struct instr table[26][12];
  void (*body)(void);
};

#define TRACE_DRIVER(BLANK, SPIN, OPEN, INSIDE)                                    \
  QUIET static void trace_all(const struct job *jobs, int n,            \
                              int width, long far)                      \
  {                                                                     \
    long runs = 0;                                                      \
    for (int k = 0; k < n; k++) {                                       \
      struct spec s = { .start = 0, .blank_ends = BLANK,                \
        .spin_ends = SPIN, .open = OPEN, .center = trace_center,                      \
        .tape = trace_cell, .view = trace_view, .reset = trace_reset }; \
      memcpy(s.table, jobs[k].table, sizeof s.table);                   \
      s.least = WIDE / 2 - trace_center;                                \
      s.most = WIDE / 2 - trace_center + trace_len - 1;                 \
      long most = far;                                                  \
      for (int w = 0; w <= width; w++) {                                \
        if (w) most = far < 2000 ? far : 2000;                          \
        s.inside = INSIDE && !w;                                        \
        long all = 1;                                                   \
        for (int i = 0; i < w; i++) all *= jobs[k].colors;              \
        for (long t = 0; t < all; t++) {                                \
          short cells[32];                                              \
          long rest = t;                                                \
          for (int i = 0; i < w; i++) {                                 \
            cells[i] = rest % jobs[k].colors;                           \
            rest /= jobs[k].colors;                                     \
          }                                                             \
          if (w && w < width) break;                                    \
          int fits = 1;                                                 \
          for (int i = 0; i < jobs[k].blank; i++) {                     \
            int at = w / 2 + jobs[k].from + i;                          \
            if (at >= 0 && at < w && cells[at]) fits = 0;               \
          }                                                             \
          if (!fits) continue;                                          \
          const char *bad = trace_run(&s, jobs[k].body, cells, w, w / 2, most); \
          trace_on = 0;                                                 \
          runs++;                                                       \
          if (bad) {                                                    \
            printf("V %d ", jobs[k].id);                                \
            for (int i = 0; i < w; i++) printf("%d", cells[i]);         \
            printf(" %s\n", bad);                                      \
            if (!w) break;                                              \
          }                                                             \
        }                                                               \
      }                                                                 \
    }                                                                   \
    printf("T %ld %ld %ld\n", runs, trace_total(), trace_ended());          \
  }
