#define _GNU_SOURCE
#include <signal.h>
#include <ucontext.h>
#include "libsim.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

// ---------------------------------------------------------------- raw syscalls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}
#define RAW(n, a, b, c, d, e, f) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))
static long ret_errno(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ---------------------------------------------------------------- state
enum { T_UNUSED = 0, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
typedef struct {
  int state;
  volatile int go;
  uint64_t local;           // local steps
  uint64_t io[IO_CLASSES];  // local io counters
  uint64_t clk;             // local clock-read counter
  uint64_t rnd;
  uint32_t last_guard;
  int prio;
  const void *faddr;
  int woken;
  uint64_t deadline;        // absolute mono deadline, 0 = none
  int timedout;
  int join_target;
  pthread_t th;
  void *(*fn)(void *);
  void *arg;
} Task;

static Task tasks[SIM_MAX_TASKS];
static int ntasks;
static SimCfg cfg;
static SimShared *sh;
static SimEv *evlog;
static uint8_t *wdata;
static const SimSwitch *sws;
static uint64_t swpos;
static uint8_t *covmap;
static uint64_t covlen;
static int active;
static __thread int cur = -1;
static int nopreempt;
static uint64_t next_preempt;
static uint64_t rng_sched, rng_tmp;
static uint64_t global_io[IO_CLASSES];
static uint64_t pct_points[64];
static int pct_npoints, pct_pos, pct_low;
static pthread_key_t exit_key;
static int key_made;
static uint64_t futex_seq;
static uint64_t disk_written;
static int disk_pos;

static uint64_t sm64(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static uint64_t mix(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  uint64_t s = a * 0x9E3779B97F4A7C15ull ^ (b + 0x1234567) * 0xD6E8FEB86659FD93ull ^ (c + 77) * 0xCA5A826395121157ull ^ (d + 5) * 0x9FB21C651E98DF25ull;
  return sm64(&s);
}

static void die(int st, const char *note) {
  if (sh) {
    sh->state = st;
    if (note) { strncpy(sh->note, note, sizeof sh->note - 1); }
    for (int i = 0; i < ntasks; i++) { sh->dead_state[i] = tasks[i].state; sh->local_steps[i] = tasks[i].local; }
  }
  RAW(SYS_exit_group, 80 + st, 0, 0, 0, 0, 0);
  __builtin_trap();
}
static void unsupported(const char *what) { die(ST_UNSUPPORTED, what); }

static void logev(uint32_t kind, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  if (sh->evn >= SIM_EVLOG_CAP) { sh->ev_overflow++; return; }
  SimEv *e = &evlog[sh->evn++];
  e->step = sh->step; e->task = (uint32_t)cur; e->kind = kind;
  e->a = a; e->b = b; e->c = c; e->d = d;
}
static int toolmode;
static uint64_t last_write = ~0ull;
static void fired(uint32_t kind, uint32_t cls, uint64_t idx, uint64_t arg) {
  sh->nfault[kind]++;
  if (toolmode && (kind == F_SHORT || kind == F_SHORT_READ || kind == F_EINTR) && sh->evn > SIM_EVLOG_CAP / 2) return;
  logev(EV_FAULT, kind, idx, arg, cls);
}

static inline int in_sim(void) { return active && cur >= 0; }
int sim_in_task(void) { return in_sim(); }
uint32_t sim_task(void) { return (uint32_t)cur; }
uint64_t sim_step(void) { return sh ? sh->step : 0; }
int64_t sim_mono(void) { return sh->mono; }
int64_t sim_wall(void) { return sh->mono + sh->wall_off; }
void sim_set_nopreempt(int on) { nopreempt = on; }
void sim_probe(uint32_t i) { if (sh && i < 64) sh->probes[i]++; }

// ---------------------------------------------------------------- scheduler
static void schedule_next_preempt(void) {
  if (cfg.policy == POL_RANDOM) {
    uint64_t m = cfg.mean ? cfg.mean : 1;
    // mixture: mostly geometric-like intervals, sometimes bursts
    uint64_t r = sm64(&rng_sched);
    uint64_t iv;
    if ((r & 7) == 0) iv = 1 + (sm64(&rng_sched) % 8);
    else iv = 1 + sm64(&rng_sched) % (2 * m);
    next_preempt = sh->step + iv;
  } else if (cfg.policy == POL_PCT) {
    next_preempt = pct_pos < pct_npoints ? pct_points[pct_pos] : UINT64_MAX;
  } else if (cfg.policy == POL_REPLAY) {
    next_preempt = 0; // handled by local step comparison
  } else next_preempt = UINT64_MAX;
}

static void baton(int to) {
  int me = cur;
  if (to == me) return;
  tasks[to].go = 1;
  RAW(SYS_futex, &tasks[to].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
  while (!__atomic_load_n(&tasks[me].go, __ATOMIC_ACQUIRE))
    RAW(SYS_futex, &tasks[me].go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  tasks[me].go = 0;
}

static int runnable(int i) { return tasks[i].state == T_RUN; }

static void expire_timers(void) {
  for (int i = 0; i < ntasks; i++)
    if ((tasks[i].state == T_SLEEP || tasks[i].state == T_FUTEX) && tasks[i].deadline && (int64_t)tasks[i].deadline <= sh->mono) {
      if (tasks[i].state == T_FUTEX) tasks[i].timedout = 1;
      tasks[i].state = T_RUN; tasks[i].deadline = 0;
    }
}

// choose a runnable task (other than `avoid` if possible); -1 if none
static int choose(int avoid) {
  int list[SIM_MAX_TASKS], n = 0;
  for (;;) {
    n = 0;
    for (int i = 0; i < ntasks; i++) if (runnable(i) && i != avoid) list[n++] = i;
    if (n == 0 && avoid >= 0 && runnable(avoid)) return avoid;
    if (n) break;
    // nothing runnable: jump the clock to the next deadline
    uint64_t best = 0;
    for (int i = 0; i < ntasks; i++)
      if ((tasks[i].state == T_SLEEP || tasks[i].state == T_FUTEX) && tasks[i].deadline && (!best || tasks[i].deadline < best)) best = tasks[i].deadline;
    if (!best) return -1;
    if ((int64_t)best > sh->mono) sh->mono = (int64_t)best;
    expire_timers();
    avoid = -1;
  }
  if (cfg.policy == POL_PCT) {
    int b = list[0];
    for (int i = 1; i < n; i++) if (tasks[list[i]].prio > tasks[b].prio) b = list[i];
    return b;
  }
  if (cfg.policy == POL_REPLAY) return list[0];
  return list[sm64(&rng_sched) % n];
}

// the recorded switch of this kind at this point of the current task, or -1
static int replay_next(int kind) {
  while (swpos < cfg.nswitch) {
    const SimSwitch *s = &sws[swpos];
    if ((int)s->from != cur || s->step > tasks[cur].local) return -1;
    if (s->step < tasks[cur].local) { swpos++; continue; } // stale
    if ((int)(s->to >> 16) != kind) return -1;
    int to = s->to & 0xffff;
    swpos++;
    if (to < ntasks && runnable(to)) return to;
  }
  return -1;
}

static void do_switch(int to, int kind) {
  sh->switches++;
  logev(EV_SWITCH, tasks[cur].local, to, kind, tasks[cur].last_guard);
  sh->sched_hash = mix(sh->sched_hash, cur, tasks[cur].last_guard, to);
  baton(to);
}

// current task cannot continue (state already set): hand over
static void block_current(int kind) {
  int to = -1;
  if (cfg.policy == POL_REPLAY) to = replay_next(1);
  if (to < 0) to = choose(-1);
  if (to < 0) { logev(EV_CRASH, 1, 0, 0, 0); die(ST_DEADLOCK, "no runnable task"); }
  if (to == cur) return; // became runnable again by a timer
  do_switch(to, kind);
}

static void preempt_to(int to, int kind) {
  if (to != cur && to >= 0) do_switch(to, kind);
}

static void check_limits(void) {
  if (cfg.crash_step && sh->step >= cfg.crash_step) { sh->nfault[F_CRASH]++; logev(EV_CRASH, 0, 0, 0, 0); die(ST_CRASHED, "crash point"); }
  if (sh->step > cfg.max_steps) die(ST_BUDGET, "step budget exhausted");
}

static inline void step_point(void) {
  sh->step++;
  Task *t = &tasks[cur];
  t->local++;
  if (__builtin_expect(cfg.crash_step && sh->step >= cfg.crash_step, 0)) check_limits();
  if (__builtin_expect(sh->step > cfg.max_steps, 0)) check_limits();
  if (nopreempt) return;
  if (cfg.policy == POL_REPLAY) {
    for (int to; (to = replay_next(0)) >= 0;) preempt_to(to, 0);
    return;
  }
  if (__builtin_expect(sh->step >= next_preempt, 0)) {
    if (cfg.policy == POL_PCT) {
      while (pct_pos < pct_npoints && pct_points[pct_pos] <= sh->step) pct_pos++;
      tasks[cur].prio = --pct_low;
      schedule_next_preempt();
      preempt_to(choose(-1), 0);
    } else {
      schedule_next_preempt();
      preempt_to(choose(cur), 0);
      if (sh->step >= next_preempt) schedule_next_preempt();
    }
  }
}

// scheduling choices made so far (while preemption was off) do not use up change points
void sim_rebase(void) {
  if (!in_sim()) return;
  if (cfg.policy == POL_PCT) {
    for (int i = 0; i < pct_npoints; i++) pct_points[i] += sh->step;
    pct_pos = 0;
  }
  schedule_next_preempt();
}
static char **saved_argv; static int saved_argc;
__attribute__((constructor)) static void save_args(int argc, char **argv) { saved_argc = argc; saved_argv = argv; }
char **sim_argv(int *argc) { *argc = saved_argc; return saved_argv; }

void sim_yield_hook(void) { if (in_sim()) step_point(); }

// a point at an intercepted system call
static void sys_point(void) {
  step_point();
  if (nopreempt || cfg.policy == POL_PCT) return;
  if (cfg.policy == POL_REPLAY) { for (int to; (to = replay_next(4)) >= 0;) preempt_to(to, 4); return; }
  if (cfg.p_sys && (sm64(&rng_sched) & 255) < cfg.p_sys) preempt_to(choose(cur), 4);
}

static void became_runnable(void) {
  if (cfg.policy == POL_REPLAY && !nopreempt) { for (int to; (to = replay_next(5)) >= 0;) preempt_to(to, 5); return; }
  if (cfg.policy == POL_PCT && !nopreempt) {
    int b = choose(-1);
    if (b >= 0 && tasks[b].prio > tasks[cur].prio) preempt_to(b, 5);
  }
}

static void voluntary_yield(void) {
  sh->step++; tasks[cur].local++;
  check_limits();
  if (cfg.policy == POL_PCT) { tasks[cur].prio = --pct_low; preempt_to(choose(-1), 3); return; }
  if (cfg.policy == POL_REPLAY) {
    int to = replay_next(3);
    if (to >= 0) { preempt_to(to, 3); return; }
    // fall back to round robin so that spinning makes progress
    for (int k = 1; k < ntasks; k++) { int i = (cur + k) % ntasks; if (runnable(i)) { preempt_to(i, 3); return; } }
    return;
  }
  preempt_to(choose(cur), 3);
}

// ---------------------------------------------------------------- threads
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_detach)(pthread_t);

static void task_exit(void *v) {
  // runs after all thread-local destructors of the task (pthread keys come last)
  (void)v;
  if (!active || cur < 0) return;
  Task *t = &tasks[cur];
  t->state = T_DONE;
  for (int i = 0; i < ntasks; i++)
    if (tasks[i].state == T_JOIN && tasks[i].join_target == cur) tasks[i].state = T_RUN;
  int to = -1;
  if (cfg.policy == POL_REPLAY) to = replay_next(2);
  if (to < 0) to = choose(-1);
  if (to < 0) die(ST_DEADLOCK, "no runnable task at thread exit");
  sh->switches++;
  logev(EV_SWITCH, t->local, to, 2, t->last_guard);
  sh->sched_hash = mix(sh->sched_hash, cur, 0xE, to);
  cur = -1;
  tasks[to].go = 1;
  RAW(SYS_futex, &tasks[to].go, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static void *trampoline(void *p) {
  Task *t = p;
  int id = (int)(t - tasks);
  while (!__atomic_load_n(&t->go, __ATOMIC_ACQUIRE))
    RAW(SYS_futex, &t->go, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  t->go = 0;
  cur = id;
  pthread_setspecific(exit_key, t);
  return t->fn(t->arg);
}

int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!in_sim()) return real_pthread_create(th, attr, fn, arg);
  if (ntasks >= SIM_MAX_TASKS) unsupported("too many threads");
  Task *t = &tasks[ntasks];
  memset(t, 0, sizeof *t);
  t->fn = fn; t->arg = arg; t->state = T_RUN;
  t->prio = 1000 + (int)(mix(cfg.seed, 0xBEEF, ntasks, 3) % 1000);
  int r = real_pthread_create(&t->th, attr, trampoline, t);
  if (r) { t->state = T_UNUSED; return r; }
  *th = t->th;
  ntasks++; sh->ntasks = ntasks;
  sys_point();
  became_runnable();
  return 0;
}

int pthread_join(pthread_t th, void **ret) {
  if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!in_sim()) return real_pthread_join(th, ret);
  int target = -1;
  for (int i = 1; i < ntasks; i++) if (pthread_equal(tasks[i].th, th)) target = i;
  if (target < 0) return real_pthread_join(th, ret);
  sys_point();
  while (tasks[target].state != T_DONE) {
    tasks[cur].state = T_JOIN; tasks[cur].join_target = target;
    block_current(1);
  }
  return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) {
  if (!real_pthread_detach) real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
  return real_pthread_detach(th);
}
int sched_yield(void) {
  if (!in_sim()) return (int)ret_errno(RAW(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  voluntary_yield();
  return 0;
}

// ---------------------------------------------------------------- faults
static const SimFault *find_fault(uint32_t cls) {
  uint64_t li = tasks[cur].io[cls], gi = global_io[cls];
  for (uint32_t i = 0; i < cfg.nfaults; i++) {
    const SimFault *f = &cfg.faults[i];
    if (f->cls != cls) continue;
    if (f->task == 0xffffffffu ? f->idx == gi : ((int)f->task == cur && f->idx == li)) return f;
  }
  return NULL;
}
static void io_count(uint32_t cls) { tasks[cur].io[cls]++; global_io[cls]++; sh->io_calls[cls]++; }

// ---------------------------------------------------------------- futex
static long sim_futex(long *args) {
  volatile int *addr = (volatile int *)args[0];
  int op = (int)args[1] & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  int val = (int)args[2];
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    sys_point();
    uint64_t deadline = 0;
    const struct timespec *ts = (const struct timespec *)args[3];
    if (ts) {
      uint64_t ns = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
      if (op == FUTEX_WAIT) deadline = sh->mono + ns;
      else if (args[1] & FUTEX_CLOCK_REALTIME) deadline = ns - sh->wall_off;
      else deadline = ns;
      if (!deadline) deadline = 1;
    }
    if (*addr != val) { errno = EAGAIN; return -1; }
    uint64_t idx = tasks[cur].io[IO_FUTEX];
    const SimFault *f = find_fault(IO_FUTEX);
    io_count(IO_FUTEX);
    int spur = f && f->kind == F_SPURIOUS;
    if (!spur && cfg.p_spurious && (mix(cfg.seed, 0x5E, cur, idx) & 255) < cfg.p_spurious) spur = 1;
    if (spur) {
      fired(F_SPURIOUS, IO_FUTEX, idx, 0);
      voluntary_yield();
      errno = EINTR;
      return -1;
    }
    Task *t = &tasks[cur];
    t->faddr = (const void *)addr; t->woken = 0; t->timedout = 0; t->deadline = deadline;
    t->state = T_FUTEX;
    futex_seq++;
    t->join_target = (int)futex_seq; // FIFO order
    block_current(1);
    t->deadline = 0;
    if (t->timedout) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    int n = 0;
    while (n < val) {
      int best = -1;
      for (int i = 0; i < ntasks; i++)
        if (tasks[i].state == T_FUTEX && tasks[i].faddr == (const void *)addr && (best < 0 || tasks[i].join_target < tasks[best].join_target)) best = i;
      if (best < 0) break;
      tasks[best].state = T_RUN; tasks[best].woken = 1; n++;
    }
    sys_point();
    if (n) became_runnable();
    return n;
  }
  unsupported("futex op");
  return -1;
}

static int pmu_on;
static long pmu_open(const uint8_t *attr, int pid, int cpu, int group, unsigned long fl);
static int pmu_close(int fd);
static int pmu_fcntl(int fd, int cmd);
static void pmu_work(uint64_t n);
long syscall(long n, ...) {
  va_list ap; long a[6];
  va_start(ap, n);
  for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (in_sim()) {
    if (n == SYS_futex) return sim_futex(a);
    if (n == SYS_getrandom) return getrandom((void *)a[0], a[1], a[2]);
    if (n == SYS_gettid) return 100000 + cur;
    if (n == SYS_getpid) return cfg.pid;
    if (n == SYS_clock_gettime) return clock_gettime((clockid_t)a[0], (void *)a[1]);
    if (n == SYS_statx) { errno = ENOSYS; return -1; }
    if (n == SYS_perf_event_open && pmu_on) return pmu_open((void *)a[0], (int)a[1], (int)a[2], (int)a[3], a[4]);
  }
  return ret_errno(raw6(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}

// ---------------------------------------------------------------- clocks
void sim_advance(uint64_t ns) { if (pmu_on) pmu_work(ns); sh->mono += (int64_t)ns; expire_timers(); }
void sim_walljump(int64_t ns) { sh->wall_off += ns; sh->nfault[F_WALLJUMP]++; }

static void clock_effects(void) {
  uint64_t i = tasks[cur].clk++;
  sh->clock_reads++;
  if (cfg.p_tick) {
    uint64_t r = mix(cfg.seed, 0xC10C, cur, i);
    if ((r & 255) < cfg.p_tick && cfg.tick_max) { sh->mono += (int64_t)((r >> 8) % (cfg.tick_max + 1)); sh->nfault[F_CLOCKTICK]++; expire_timers(); }
  }
  if (cfg.p_walljump) {
    uint64_t r = mix(cfg.seed, 0x3A11, cur, i);
    if ((r & 255) < cfg.p_walljump) {
      int64_t j = (int64_t)((r >> 8) % 7200000000000ull) - 3600000000000ll;
      if (sh->mono + sh->wall_off + j > 0) sim_walljump(j);
    }
  }
}

int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!in_sim()) return (int)ret_errno(RAW(SYS_clock_gettime, id, ts, 0, 0, 0, 0));
  step_point();
  clock_effects();
  int64_t v;
  switch (id) {
    case CLOCK_MONOTONIC: v = sh->mono; break;
    case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: v = sh->mono + sh->wall_off; logev(EV_WALL, v, id, 0, 0); break;
    case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: v = (int64_t)tasks[cur].local * 3; break;
    case CLOCK_MONOTONIC_COARSE: v = sh->mono / 4000000 * 4000000; break;
    default: v = sh->mono + 1234567890123ll; break;
  }
  ts->tv_sec = v / 1000000000; ts->tv_nsec = v % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  if (!in_sim()) return (int)ret_errno(RAW(SYS_gettimeofday, tv, tz, 0, 0, 0, 0));
  clock_effects();
  int64_t v = sh->mono + sh->wall_off;
  logev(EV_WALL, v, 0, 0, 0);
  tv->tv_sec = v / 1000000000; tv->tv_usec = v % 1000000000 / 1000;
  return 0;
}
time_t time(time_t *p) {
  int64_t v;
  if (!in_sim()) { struct timespec ts; RAW(SYS_clock_gettime, CLOCK_REALTIME, &ts, 0, 0, 0, 0); v = ts.tv_sec; }
  else v = (sh->mono + sh->wall_off) / 1000000000;
  if (p) *p = v;
  return v;
}
static int sim_sleep_until(uint64_t deadline) {
  sys_point();
  if ((int64_t)deadline > sh->mono) {
    tasks[cur].state = T_SLEEP; tasks[cur].deadline = deadline;
    block_current(1);
  }
  return 0;
}
int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (!in_sim()) return (int)ret_errno(RAW(SYS_nanosleep, req, rem, 0, 0, 0, 0));
  return sim_sleep_until(sh->mono + req->tv_sec * 1000000000ull + req->tv_nsec);
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *req, struct timespec *rem) {
  if (!in_sim()) { long r = RAW(SYS_clock_nanosleep, id, flags, req, rem, 0, 0); return (int)-r; }
  uint64_t ns = req->tv_sec * 1000000000ull + req->tv_nsec;
  if (flags & TIMER_ABSTIME) return sim_sleep_until(id == CLOCK_REALTIME ? ns - sh->wall_off : ns);
  return sim_sleep_until(sh->mono + ns);
}

// ---------------------------------------------------------------- identity, randomness
pid_t getpid(void) {
  if (!in_sim()) return (pid_t)RAW(SYS_getpid, 0, 0, 0, 0, 0, 0);
  return (pid_t)cfg.pid;
}
ssize_t getrandom(void *buf, size_t len, unsigned flags) {
  if (!in_sim()) return ret_errno(RAW(SYS_getrandom, buf, len, flags, 0, 0, 0));
  uint8_t *p = buf;
  for (size_t i = 0; i < len; i++) p[i] = (uint8_t)mix(cfg.seed, 0xA11, cur, tasks[cur].rnd++);
  return (ssize_t)len;
}

// ---------------------------------------------------------------- simulated file system
#define FD0 1000000
#define MAXFD 128
#define MAXINO 64
typedef struct { char path[256]; int kind; uint8_t *data; uint64_t len, cap; int linked; } Inode; // kind 1 file 2 dir
typedef struct { int used; int ino; int flags; uint64_t pos; int alias, refs; } Fd; // alias - 1: the slot that holds the shared position
static Inode inodes[MAXINO];
static int nino;
static Fd fds[MAXFD];

static char tool_cwd[256] = "/sim";
#define FD_OUT (FD0 + MAXFD - 2)
#define FD_ERR (FD0 + MAXFD - 1)
static int is_sim_path(const char *p) { if (toolmode && (uintptr_t)p > 4095 && p[0] != '/') return 1; return (uintptr_t)p > 4095 && (strncmp(p, "/sim/", 5) == 0 || strcmp(p, "/sim") == 0); }
static inline int simfd(int fd) { if (toolmode && active) { if (fd == 1) return FD_OUT; if (fd == 2) return FD_ERR; } return fd; }
static int is_sim_fd(int fd) { fd = simfd(fd); return fd >= FD0 && fd < FD0 + MAXFD; }
static void norm(const char *p, char *out) {
  char tmp[800];
  if (toolmode && p[0] != '/') snprintf(tmp, sizeof tmp, "%s/%s", tool_cwd, p); else snprintf(tmp, sizeof tmp, "%s", p);
  size_t o = 0;
  char *c = tmp;
  while (*c) {
    while (*c == '/') c++;
    if (!*c) break;
    char *e = c; while (*e && *e != '/') e++;
    size_t n = e - c;
    if (n == 1 && c[0] == '.') { c = e; continue; }
    if (n == 2 && c[0] == '.' && c[1] == '.') { while (o > 0 && out[--o] != '/') {} c = e; continue; }
    if (o + n + 1 > 254) break;
    out[o++] = '/'; memcpy(out + o, c, n); o += n;
    c = e;
  }
  if (!o) out[o++] = '/';
  out[o] = 0;
}
static int lookup(const char *p) {
  if (!p[0]) return -1;
  char n[256]; norm(p, n);
  for (int i = 0; i < nino; i++) if (inodes[i].linked && strcmp(inodes[i].path, n) == 0) return i;
  return -1;
}
static int parent_ok(const char *p) { // 0 ok, else errno
  char n[256]; norm(p, n);
  char *s = strrchr(n, '/');
  if (!s || s == n) return 0;
  *s = 0;
  int i = lookup(n);
  if (i < 0) return ENOENT;
  return inodes[i].kind == 2 ? 0 : ENOTDIR;
}
static int add_inode(const char *p, int kind) {
  if (nino >= MAXINO) unsupported("too many inodes");
  Inode *in = &inodes[nino];
  memset(in, 0, sizeof *in);
  norm(p, in->path); in->kind = kind; in->linked = 1;
  if (sh) { strncpy(sh->paths[nino], in->path, 255); sh->ninodes = nino + 1; }
  return nino++;
}
static void reserve(Inode *in, uint64_t need) {
  if (need <= in->cap) return;
  uint64_t c = in->cap ? in->cap : 1 << 20;
  while (c < need) c *= 2;
  uint8_t *d = mmap(NULL, c, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (d == MAP_FAILED) unsupported("simfs out of memory");
  if (in->data) { memcpy(d, in->data, in->len); munmap(in->data, in->cap); }
  in->data = d; in->cap = c;
}
void sim_put_file(const char *path, const uint8_t *data, uint64_t len) {
  int i = lookup(path);
  if (i < 0) i = add_inode(path, data ? 1 : 2);
  if (data) { reserve(&inodes[i], len); memcpy(inodes[i].data, data, len); inodes[i].len = len; }
}
static long fail(int e) { errno = e; return -1; }

// generic fault check for a class; returns 1 and sets errno if the call must fail
static int fault_err(uint32_t cls) {
  uint64_t idx = tasks[cur].io[cls];
  const SimFault *f = find_fault(cls);
  io_count(cls);
  if (!f) return 0;
  if (f->kind == F_EINTR) { fired(F_EINTR, cls, idx, 0); errno = EINTR; return 1; }
  if (f->kind == F_ERR) { fired(F_ERR, cls, idx, f->arg); errno = (int)f->arg; return 1; }
  return 0;
}

static int sim_open(const char *path, int flags, mode_t mode) {
  (void)mode;
  sys_point();
  if (fault_err(IO_OPEN)) return -1;
  int i = lookup(path);
  if (i < 0) {
    if (!(flags & O_CREAT)) return (int)fail(ENOENT);
    int e = parent_ok(path);
    if (e) return (int)fail(e);
    i = add_inode(path, 1);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return (int)fail(EEXIST);
    if (inodes[i].kind == 2 && (flags & O_ACCMODE) != O_RDONLY) return (int)fail(EISDIR);
  }
  int fd = -1;
  for (int k = 0; k < MAXFD; k++) if (!fds[k].used && !fds[k].refs) { fd = k; break; }
  if (fd < 0) return (int)fail(EMFILE);
  if ((flags & O_TRUNC) && inodes[i].kind == 1) { inodes[i].len = 0; last_write = ~0ull; logev(EV_TRUNC, i, 0, 0, 0); }
  fds[fd].used = 1; fds[fd].ino = i; fds[fd].flags = flags; fds[fd].pos = 0; fds[fd].alias = 0;
  logev(EV_OPEN, i, flags, 0, 0);
  return FD0 + fd;
}

static ssize_t sim_write_at(Fd *f, const struct iovec *iov, int cnt, int64_t at) {
  sys_point();
  int quiet = toolmode && f == &fds[FD_ERR - FD0];
  uint64_t idx = tasks[cur].io[IO_WRITE];
  const SimFault *ft = quiet ? NULL : find_fault(IO_WRITE);
  if (!quiet) io_count(IO_WRITE);
  if ((f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
  Inode *in = &inodes[f->ino];
  if (in->kind != 1) return fail(EISDIR);
  uint64_t len = 0;
  for (int i = 0; i < cnt; i++) len += iov[i].iov_len;
  if (len > 0x7ffff000) len = 0x7ffff000;
  uint64_t pos = at >= 0 ? (uint64_t)at : ((f->flags & O_APPEND) ? in->len : f->pos);
  if (ft) {
    if (ft->kind == F_EINTR) { fired(F_EINTR, IO_WRITE, idx, 0); return fail(EINTR); }
    if (ft->kind == F_ERR) { fired(F_ERR, IO_WRITE, idx, ft->arg); logev(EV_WFAIL, f->ino, pos, len, ft->arg ? ft->arg : 0xffff); return ft->arg ? fail((int)ft->arg) : 0; }
    if (ft->kind == F_SHORT && len > 1) { uint64_t k = ft->arg % len; if (!k) k = 1; fired(F_SHORT, IO_WRITE, idx, k); len = k; }
  } else if (!quiet) {
    uint64_t r = mix(cfg.seed, 0x77, cur, idx);
    if ((r & 255) < cfg.p_eintr) { fired(F_EINTR, IO_WRITE, idx, 0); return fail(EINTR); }
    if (((r >> 8) & 255) < cfg.p_short && len > 1) {
      uint64_t k = (r >> 16) % len; if (((r >> 60) & 3) == 0) k = 1 + (r >> 16) % (len < 8 ? len : 8);
      if (!k) k = 1; if (k >= len) k = len - 1;
      fired(F_SHORT, IO_WRITE, idx, k); len = k;
    }
  }
  // disk limits
  int limited = disk_pos < (int)cfg.ndisk && (!cfg.disk[disk_pos].pad || !strncmp(in->path, "/sim/bad/", 9));
  if (!quiet && limited && len > 0) {
    SimDisk *d = &cfg.disk[disk_pos];
    if (disk_written >= d->cap_bytes) {
      if (d->fail_calls) {
        if (d->fail_calls != UINT64_MAX) { d->fail_calls--; if (!d->fail_calls) disk_pos++; }
        fired(F_DISK, IO_WRITE, idx, d->err);
        // error 0: the call takes nothing and says so
        logev(EV_WFAIL, f->ino, pos, len, d->err ? d->err : 0xffff);
        return d->err ? fail((int)d->err) : 0;
      }
      disk_pos++;
    } else if (disk_written + len > d->cap_bytes) len = d->cap_bytes - disk_written;
  }
  uint64_t end = pos + len;
  if (cfg.keep) {
    // the file itself is not kept, only the log
    uint64_t cut = 0, k = cfg.keep, o = 0, at2 = 0;
    if (len > 2 * k + 64) {
      cut = 1;
      for (int i = 0; cut && i < cnt && o < len; i++) {
        const uint8_t *b = iov[i].iov_base;
        uint64_t n = iov[i].iov_len; if (n > len - o) n = len - o;
        uint64_t a = o < k ? k - o : 0, e = o + n > len - k ? (len - k > o ? len - k - o : 0) : n;
        if (a < e && (b[a] || memcmp(b + a, b + a + 1, e - a - 1))) cut = 0;
        o += n;
      }
    }
    if (sh->wdata_len + (cut ? 2 * k : len) > SIM_WDATA_CAP) unsupported("write log full");
    o = 0;
    for (int i = 0; i < cnt && o < len; i++) {
      const uint8_t *b = iov[i].iov_base;
      uint64_t n = iov[i].iov_len; if (n > len - o) n = len - o;
      if (!cut) { memcpy(wdata + sh->wdata_len + at2, b, n); at2 += n; }
      else {
        if (o < k) { uint64_t m = n < k - o ? n : k - o; memcpy(wdata + sh->wdata_len + o, b, m); }
        if (o + n > len - k) { uint64_t a = len - k > o ? len - k - o : 0; memcpy(wdata + sh->wdata_len + k + (o + a - (len - k)), b + a, n - a); }
      }
      o += n;
    }
    last_write = sh->evn; logev(EV_WRITE, f->ino, pos, len, sh->wdata_len | cut << 63);
    sh->wdata_len += cut ? 2 * k : len;
    if (limited) disk_written += len;
    if (end > in->len) in->len = end;
    if (at < 0) f->pos = end;
    return (ssize_t)len;
  }
  if (sh->wdata_len + len > SIM_WDATA_CAP) unsupported("write log full");
  reserve(in, end);
  if (pos > in->len) memset(in->data + in->len, 0, pos - in->len);
  uint64_t o = 0; uint8_t *dst = in->data + pos;
  for (int i = 0; i < cnt && o < len; i++) {
    uint64_t n = iov[i].iov_len; if (n > len - o) n = len - o;
    memcpy(dst + o, iov[i].iov_base, n); o += n;
  }
  memcpy(wdata + sh->wdata_len, dst, len);
  if (toolmode && last_write < sh->evn && evlog[last_write].a == f->ino && evlog[last_write].b + evlog[last_write].c == pos && evlog[last_write].d + evlog[last_write].c == sh->wdata_len)
    evlog[last_write].c += len;
  else { last_write = sh->evn; logev(EV_WRITE, f->ino, pos, len, sh->wdata_len); }
  sh->wdata_len += len;
  if (!quiet && limited) disk_written += len;
  if (end > in->len) in->len = end;
  if (at < 0) f->pos = end;
  return (ssize_t)len;
}

static ssize_t sim_read_at(Fd *f, const struct iovec *iov, int cnt, int64_t at) {
  sys_point();
  uint64_t idx = tasks[cur].io[IO_READ];
  const SimFault *ft = find_fault(IO_READ);
  io_count(IO_READ);
  Inode *in = &inodes[f->ino];
  if (in->kind != 1) return fail(EISDIR);
  uint64_t len = 0;
  for (int i = 0; i < cnt; i++) len += iov[i].iov_len;
  uint64_t pos = at >= 0 ? (uint64_t)at : f->pos;
  uint64_t avail = pos < in->len ? in->len - pos : 0;
  if (ft) {
    if (ft->kind == F_EINTR) { fired(F_EINTR, IO_READ, idx, 0); return fail(EINTR); }
    if (ft->kind == F_ERR) { fired(F_ERR, IO_READ, idx, ft->arg); return fail((int)ft->arg); }
  }
  if (len > avail) len = avail;
  if (ft && ft->kind == F_SHORT_READ && len > 1) { uint64_t k = ft->arg % len; if (!k) k = 1; fired(F_SHORT_READ, IO_READ, idx, k); len = k; }
  else if (!ft) {
    uint64_t r = mix(cfg.seed, 0x78, cur, idx);
    if ((r & 255) < cfg.p_eintr) { fired(F_EINTR, IO_READ, idx, 0); return fail(EINTR); }
    if (((r >> 8) & 255) < cfg.p_short && len > 1) { uint64_t k = (r >> 16) % len; if (!k) k = 1; fired(F_SHORT_READ, IO_READ, idx, k); len = k; }
  }
  uint64_t o = 0;
  for (int i = 0; i < cnt && o < len; i++) {
    uint64_t n = iov[i].iov_len; if (n > len - o) n = len - o;
    memcpy(iov[i].iov_base, in->data + pos + o, n); o += n;
  }
  logev(EV_READ, f->ino, pos, len, 0);
  if (at < 0) f->pos = pos + len;
  return (ssize_t)len;
}
#define FDS(fd) (&fds[simfd(fd) - FD0])
static inline Fd *FDP(int fd) { Fd *f = FDS(fd); return f->alias ? &fds[f->alias - 1] : f; }
static int do_dup(int fd) {
  if (!FDS(fd)->used) return fail(EBADF);
  sys_point();
  if (fault_err(IO_OTHER)) return -1;
  int k = 0;
  while (k < MAXFD && (fds[k].used || fds[k].refs)) k++;
  if (k == MAXFD) return fail(EMFILE);
  Fd *m = FDP(fd);
  fds[k].used = 1; fds[k].ino = m->ino; fds[k].flags = m->flags; fds[k].alias = (int)(m - fds) + 1; m->refs++;
  return FD0 + k;
}

static int do_open(const char *path, int flags, mode_t mode) {
  if (in_sim() && is_sim_path(path)) return sim_open(path, flags, mode);
  if (toolmode && active && (flags & (O_ACCMODE | O_CREAT | O_TRUNC))) return (int)fail(EACCES);
  return (int)ret_errno(RAW(SYS_openat, AT_FDCWD, path, flags | O_LARGEFILE, mode, 0, 0));
}
#define GETMODE(last) mode_t mode = 0; if (flags & (O_CREAT | __O_TMPFILE)) { va_list ap; va_start(ap, last); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE(flags) return do_open(path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE(flags) return do_open(path, flags, mode); }
int openat(int dfd, const char *path, int flags, ...) {
  GETMODE(flags)
  if (in_sim() && is_sim_path(path)) return sim_open(path, flags, mode);
  if (toolmode && active && (flags & (O_ACCMODE | O_CREAT | O_TRUNC))) return (int)fail(EACCES);
  return (int)ret_errno(RAW(SYS_openat, dfd, path, flags, mode, 0, 0));
}
int openat64(int dfd, const char *path, int flags, ...) {
  GETMODE(flags)
  if (in_sim() && is_sim_path(path)) return sim_open(path, flags, mode);
  if (toolmode && active && (flags & (O_ACCMODE | O_CREAT | O_TRUNC))) return (int)fail(EACCES);
  return (int)ret_errno(RAW(SYS_openat, dfd, path, flags | O_LARGEFILE, mode, 0, 0));
}
int creat(const char *path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

ssize_t write(int fd, const void *buf, size_t n) {
  if (is_sim_fd(fd)) { struct iovec v = {(void *)buf, n}; if (!FDS(fd)->used) return fail(EBADF); return sim_write_at(FDP(fd), &v, 1, -1); }
  return ret_errno(RAW(SYS_write, fd, buf, n, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *iov, int cnt) {
  if (is_sim_fd(fd)) return sim_write_at(FDP(fd), iov, cnt, -1);
  return ret_errno(RAW(SYS_writev, fd, iov, cnt, 0, 0, 0));
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off_t off) {
  if (is_sim_fd(fd)) { struct iovec v = {(void *)buf, n}; return sim_write_at(FDP(fd), &v, 1, off); }
  return ret_errno(RAW(SYS_pwrite64, fd, buf, n, off, 0, 0));
}
ssize_t pwrite(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off_t off) { return do_pwrite(fd, buf, n, off); }
ssize_t read(int fd, void *buf, size_t n) {
  if (is_sim_fd(fd)) { struct iovec v = {buf, n}; return sim_read_at(FDP(fd), &v, 1, -1); }
  return ret_errno(RAW(SYS_read, fd, buf, n, 0, 0, 0));
}
ssize_t readv(int fd, const struct iovec *iov, int cnt) {
  if (is_sim_fd(fd)) return sim_read_at(FDP(fd), iov, cnt, -1);
  return ret_errno(RAW(SYS_readv, fd, iov, cnt, 0, 0, 0));
}
static ssize_t do_pread(int fd, void *buf, size_t n, off_t off) {
  if (is_sim_fd(fd)) { struct iovec v = {buf, n}; return sim_read_at(FDP(fd), &v, 1, off); }
  return ret_errno(RAW(SYS_pread64, fd, buf, n, off, 0, 0));
}
ssize_t pread(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
ssize_t pread64(int fd, void *buf, size_t n, off_t off) { return do_pread(fd, buf, n, off); }
static off_t do_lseek(int fd, off_t off, int wh) {
  if (is_sim_fd(fd)) {
    Fd *f = FDP(fd); int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->pos : (int64_t)inodes[f->ino].len;
    if (base + off < 0) return fail(EINVAL);
    f->pos = base + off; return f->pos;
  }
  return ret_errno(RAW(SYS_lseek, fd, off, wh, 0, 0, 0));
}
off_t lseek(int fd, off_t off, int wh) { return do_lseek(fd, off, wh); }
off_t lseek64(int fd, off_t off, int wh) { return do_lseek(fd, off, wh); }
int close(int fd) {
  if (pmu_on && fd >= 7000 && fd < 7000 + PMU_EVENTS) return pmu_close(fd);
  if (is_sim_fd(fd)) {
    sys_point();
    int e = fault_err(IO_CLOSE);
    Fd *f = FDS(fd);
    logev(EV_CLOSE, FDP(fd)->ino, 0, 0, 0);
    f->used = 0;
    if (f->alias) { fds[f->alias - 1].refs--; f->alias = 0; }
    return e ? -1 : 0;
  }
  return (int)ret_errno(RAW(SYS_close, fd, 0, 0, 0, 0, 0));
}
static int do_ftruncate(int fd, off_t len) {
  if (is_sim_fd(fd)) {
    sys_point();
    if (fault_err(IO_OTHER)) return -1;
    Inode *in = &inodes[FDP(fd)->ino];
    if ((uint64_t)len > in->len) { reserve(in, len); memset(in->data + in->len, 0, len - in->len); }
    in->len = len; last_write = ~0ull; logev(EV_TRUNC, FDP(fd)->ino, len, 0, 0);
    return 0;
  }
  return (int)ret_errno(RAW(SYS_ftruncate, fd, len, 0, 0, 0, 0));
}
int ftruncate(int fd, off_t len) { return do_ftruncate(fd, len); }
int ftruncate64(int fd, off_t len) { return do_ftruncate(fd, len); }
int fsync(int fd) {
  if (is_sim_fd(fd)) { sys_point(); return fault_err(IO_OTHER) ? -1 : 0; }
  return (int)ret_errno(RAW(SYS_fsync, fd, 0, 0, 0, 0, 0));
}
int fdatasync(int fd) {
  if (is_sim_fd(fd)) { sys_point(); return fault_err(IO_OTHER) ? -1 : 0; }
  return (int)ret_errno(RAW(SYS_fdatasync, fd, 0, 0, 0, 0, 0));
}
int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  if (pmu_on && fd >= 7000 && fd < 7000 + PMU_EVENTS) return pmu_fcntl(fd, cmd);
  if (is_sim_fd(fd)) {
    if (cmd == F_GETFL) return FDP(fd)->flags;
    if (cmd == F_GETFD || cmd == F_SETFD || cmd == F_SETFL) return 0;
    if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return do_dup(fd);
    unsupported("fcntl");
  }
  return (int)ret_errno(RAW(SYS_fcntl, fd, cmd, a, 0, 0, 0));
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  return fcntl(fd, cmd, a);
}
int dup(int fd) { if (is_sim_fd(fd)) return do_dup(fd); return (int)ret_errno(RAW(SYS_dup, fd, 0, 0, 0, 0, 0)); }
// std falls back to plain reads and writes
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) {
  if (is_sim_fd(a) || is_sim_fd(b)) return fail(ENOSYS);
  return ret_errno(RAW(SYS_copy_file_range, a, ao, b, bo, n, fl));
}
ssize_t sendfile(int o, int i, off_t *off, size_t n) {
  if (is_sim_fd(o) || is_sim_fd(i)) return fail(ENOSYS);
  return ret_errno(RAW(SYS_sendfile, o, i, off, n, 0, 0));
}
ssize_t sendfile64(int o, int i, off64_t *off, size_t n) { return sendfile(o, i, off, n); }
ssize_t splice(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned fl) {
  if (is_sim_fd(a) || is_sim_fd(b)) return fail(EINVAL);
  return ret_errno(RAW(SYS_splice, a, ao, b, bo, n, fl));
}
int fchmod(int fd, mode_t m) {
  if (is_sim_fd(fd)) { sys_point(); return fault_err(IO_OTHER) ? -1 : 0; }
  return (int)ret_errno(RAW(SYS_fchmod, fd, m, 0, 0, 0, 0));
}
int flock(int fd, int op) {
  if (is_sim_fd(fd)) { sys_point(); return fault_err(IO_OTHER) ? -1 : 0; }
  return (int)ret_errno(RAW(SYS_flock, fd, op, 0, 0, 0, 0));
}
static void fill_stat(Inode *in, struct stat *st) {
  memset(st, 0, sizeof *st);
  st->st_mode = in->kind == 2 ? (S_IFDIR | 0755) : (S_IFREG | 0644);
  st->st_size = in->len; st->st_nlink = 1; st->st_blksize = 4096; st->st_ino = (in - inodes) + 1;
}
static int sim_stat_path(const char *p, struct stat *st) {
  sys_point();
  if (fault_err(IO_STAT)) return -1;
  int i = lookup(p);
  if (i < 0) return (int)fail(ENOENT);
  fill_stat(&inodes[i], st);
  return 0;
}
int stat(const char *p, struct stat *st) {
  if (in_sim() && is_sim_path(p)) return sim_stat_path(p, st);
  return (int)ret_errno(RAW(SYS_newfstatat, AT_FDCWD, p, st, 0, 0, 0));
}
int stat64(const char *p, struct stat64 *st) { return stat(p, (struct stat *)st); }
int lstat(const char *p, struct stat *st) {
  if (in_sim() && is_sim_path(p)) return sim_stat_path(p, st);
  return (int)ret_errno(RAW(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW, 0, 0));
}
int lstat64(const char *p, struct stat64 *st) { return lstat(p, (struct stat *)st); }
int fstat(int fd, struct stat *st) {
  if (is_sim_fd(fd)) { sys_point(); if (fault_err(IO_STAT)) return -1; fill_stat(&inodes[FDP(fd)->ino], st); return 0; }
  return (int)ret_errno(RAW(SYS_fstat, fd, st, 0, 0, 0, 0));
}
int fstat64(int fd, struct stat64 *st) { return fstat(fd, (struct stat *)st); }
int fstatat(int dfd, const char *p, struct stat *st, int fl) {
  if (in_sim() && is_sim_path(p)) return sim_stat_path(p, st);
  if (is_sim_fd(dfd)) return fstat(dfd, st);
  return (int)ret_errno(RAW(SYS_newfstatat, dfd, p, st, fl, 0, 0));
}
int fstatat64(int dfd, const char *p, struct stat64 *st, int fl) { return fstatat(dfd, p, (struct stat *)st, fl); }
int statx(int dfd, const char *p, int fl, unsigned mask, struct statx *sx) {
  int simp = in_sim() && ((p && is_sim_path(p)) || is_sim_fd(dfd));
  if (!simp) return (int)ret_errno(RAW(SYS_statx, dfd, p, fl, mask, sx, 0));
  struct stat st;
  int r = (p && is_sim_path(p)) ? sim_stat_path(p, &st) : fstat(dfd, &st);
  if (r) return r;
  memset(sx, 0, sizeof *sx);
  sx->stx_mask = STATX_BASIC_STATS; sx->stx_mode = st.st_mode; sx->stx_size = st.st_size; sx->stx_nlink = 1;
  sx->stx_ino = st.st_ino; sx->stx_blksize = 4096;
  return 0;
}
int access(const char *p, int m) {
  if (in_sim() && is_sim_path(p)) { struct stat st; return sim_stat_path(p, &st); }
  return (int)ret_errno(RAW(SYS_access, p, m, 0, 0, 0, 0));
}
int mkdir(const char *p, mode_t m) {
  if (in_sim() && is_sim_path(p)) {
    sys_point();
    if (fault_err(IO_MKDIR)) return -1;
    if (lookup(p) >= 0) return (int)fail(EEXIST);
    int e = parent_ok(p);
    if (e) return (int)fail(e);
    int i = add_inode(p, 2); logev(EV_MKDIR, i, 0, 0, 0);
    return 0;
  }
  if (toolmode && active) return (int)fail(EACCES);
  return (int)ret_errno(RAW(SYS_mkdir, p, m, 0, 0, 0, 0));
}
int unlink(const char *p) {
  if (in_sim() && is_sim_path(p)) {
    sys_point();
    if (fault_err(IO_OTHER)) return -1;
    int i = lookup(p);
    if (i < 0) return (int)fail(ENOENT);
    inodes[i].linked = 0; logev(EV_UNLINK, i, 0, 0, 0);
    return 0;
  }
  if (toolmode && active) return (int)fail(EACCES);
  return (int)ret_errno(RAW(SYS_unlink, p, 0, 0, 0, 0, 0));
}
int rename(const char *a, const char *b) {
  if (in_sim() && (is_sim_path(a) || is_sim_path(b))) {
    sys_point();
    if (fault_err(IO_OTHER)) return -1;
    int i = lookup(a);
    if (i < 0) return (int)fail(ENOENT);
    int j = lookup(b);
    if (j >= 0) inodes[j].linked = 0;
    norm(b, inodes[i].path);
    strncpy(sh->paths[i], inodes[i].path, 255);
    logev(EV_RENAME, i, 0, 0, 0);
    return 0;
  }
  if (toolmode && active) return (int)fail(EACCES);
  return (int)ret_errno(RAW(SYS_rename, a, b, 0, 0, 0, 0));
}

// ---------------------------------------------------------------- coverage callbacks = preemption points
static uint32_t nguards;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) {
  if (start == stop || *start) return;
  for (uint32_t *x = start; x < stop; x++) *x = ++nguards;
}
uint64_t sim_guard_count(void) { return nguards; }
void __sanitizer_cov_trace_pc_guard(uint32_t *guard) {
  if (!active || cur < 0) return;
  uint32_t g = *guard;
  tasks[cur].last_guard = g;
  if (covmap && g < covlen && !covmap[g]) covmap[g] = 1;
  step_point();
}
#define LS(n, t) \
  void __sanitizer_cov_load##n(t *p) { (void)p; if (active && cur >= 0) step_point(); } \
  void __sanitizer_cov_store##n(t *p) { (void)p; if (active && cur >= 0) step_point(); }
LS(1, uint8_t) LS(2, uint16_t) LS(4, uint32_t) LS(8, uint64_t) LS(16, __uint128_t)

// ---------------------------------------------------------------- lifecycle
void sim_setup(const SimCfg *c, SimShared *s, SimEv *ev, uint8_t *wd, const SimSwitch *sw, uint8_t *cm, uint64_t cl) {
  cfg = *c; sh = s; evlog = ev; wdata = wd; sws = sw; covmap = cm; covlen = cl;
  memset(tasks, 0, sizeof tasks); memset(fds, 0, sizeof fds); memset(inodes, 0, sizeof inodes);
  memset(global_io, 0, sizeof global_io);
  ntasks = 0; nino = 0; swpos = 0; nopreempt = 0; disk_written = 0; disk_pos = 0; futex_seq = 0;
  memset((void *)sh, 0, sizeof *sh);
  sh->mono = cfg.mono0; sh->mono_start = cfg.mono0; sh->wall_off = cfg.wall0 - cfg.mono0;
  rng_sched = mix(cfg.seed, 0x5C4ED, 0, 0); rng_tmp = 0;
  pct_low = 0; pct_pos = 0; pct_npoints = 0;
  if (cfg.policy == POL_PCT) {
    pct_npoints = cfg.pct_depth > 60 ? 60 : (int)cfg.pct_depth;
    for (int i = 0; i < pct_npoints; i++) pct_points[i] = 1 + sm64(&rng_sched) % (cfg.horizon ? cfg.horizon : 1000);
    for (int i = 0; i < pct_npoints; i++) for (int j = i + 1; j < pct_npoints; j++) if (pct_points[j] < pct_points[i]) { uint64_t t = pct_points[i]; pct_points[i] = pct_points[j]; pct_points[j] = t; }
  }
  add_inode("/sim", 2);
}
void sim_start(void) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!key_made) { pthread_key_create(&exit_key, task_exit); key_made = 1; }
  tasks[0].state = T_RUN; tasks[0].prio = 1000 + (int)(mix(cfg.seed, 0xBEEF, 0, 3) % 1000);
  tasks[0].th = pthread_self();
  ntasks = 1; sh->ntasks = 1;
  cur = 0; active = 1; sh->state = ST_RUNNING;
  schedule_next_preempt();
}
void sim_stop(void) {
  for (int i = 0; i < ntasks; i++) { sh->dead_state[i] = tasks[i].state; sh->local_steps[i] = tasks[i].local; }
  active = 0; cur = -1; sh->state = ST_DONE;
}

// ---------------------------------------------------------------- performance counters

#define PMU_FD 7000
#define PERF_PAGE 4096
static SimPmu pmu; static int pmu_on;
static struct { int fd_open, mapped, type; uint64_t config, flags; int pid, cpu; uint64_t count, truth, access; uint32_t cur; uint8_t *k, *u; uint64_t ulen; } pe[PMU_EVENTS];
static uint32_t pe_n;
static uint64_t pmu_mark, pmu_ticks;
static int stepping = -1;
void sim_mark(uint64_t m) { pmu_mark = m; }
// n user instructions and what else happens meanwhile
static void pmu_work(uint64_t n) {
  uint64_t r = mix(pmu.vendor[0], 0x9311, cfg.seed, pmu_ticks++);
  uint64_t irqs = (r & 255) < pmu.p_irq ? 1 + ((r >> 8) & 3) : 0, traps = ((r >> 12) & 255) < pmu.p_irq ? 1 + ((r >> 20) & 3) : 0;
  uint64_t noise = (r >> 24) & 0xff;
  for (uint32_t i = 0; i < pe_n; i++) {
    if (!pe[i].fd_open && !pe[i].mapped) continue;
    if (pe[i].type == 0 && pe[i].config == 1) pe[i].truth += n + irqs + traps;
    if (pe[i].flags & 1) continue;                       // disabled
    int user = !(pe[i].flags & 16), kern = !(pe[i].flags & 32);
    uint64_t d = 0;
    if (pe[i].type == 0 && pe[i].config == 1) d = (user ? n + irqs + traps : 0) + (kern ? 977 * irqs + 13 * traps + 5 : 0);
    else if (pe[i].type == 4 && pmu.irq_config && pe[i].config == pmu.irq_config) d = irqs;
    else if (pe[i].type == 4 && pe[i].config == 0x0420) d = irqs + traps;
    else if (pe[i].type == 4 && pe[i].config == 0x0825) d = noise & 1;
    else d = noise & 7;
    if (pe[i].pid != 0 || pe[i].cpu != -1) d += noise + 1; // other tasks are counted too
    pe[i].count += d;
  }
}
static void pmu_tick(void) { uint64_t r = mix(cfg.seed, 0x9312, pe_n, pmu_ticks); pmu_work(9 + r % (pmu.step_max + 1)); }
static void pmu_put(uint32_t i) {
  const PmuPage *p = &pmu.ev[i].page[pe[i].cur];
  uint8_t *k = pe[i].k;
  uint32_t lock; memcpy(&lock, k + 8, 4); lock += 2; memcpy(k + 8, &lock, 4);
  uint32_t v[2] = {0, 0}; memcpy(k, v, 8);
  memcpy(k + 12, &p->index, 4); memcpy(k + 40, &p->caps, 8);
  uint16_t w = (uint16_t)p->width; memcpy(k + 48, &w, 2);
  uint64_t off = mix(cfg.seed, 0x0FF5, i, pe[i].cur) >> 20; memcpy(k + 16, &off, 8);
}
static void pmu_access(uint32_t i) {
  uint64_t a = pe[i].access++;
  while (pe[i].cur + 1 < pmu.ev[i].npage && pmu.ev[i].page[pe[i].cur + 1].at <= a) { pe[i].cur++; pmu_put(i); logev(EV_PERF, 4, i, 0, pmu_mark); }
}
static struct sigaction old_segv, old_trap;
static void pmu_sig(int s, siginfo_t *si, void *ctx) {
  ucontext_t *u = ctx; greg_t *g = u->uc_mcontext.gregs;
  int saved = errno;
  if (s == SIGTRAP) {
    if (stepping < 0) { sigaction(SIGTRAP, &old_trap, NULL); return; }
    RAW(SYS_mprotect, pe[stepping].u, PERF_PAGE, PROT_NONE, 0, 0, 0);
    stepping = -1; g[REG_EFL] &= ~0x100ll; errno = saved;
    return;
  }
  uint8_t *a = si->si_addr;
  if (si->si_code != SI_KERNEL) {
    for (uint32_t i = 0; i < pe_n; i++) if (pe[i].mapped && a >= pe[i].u && a < pe[i].u + PERF_PAGE && stepping < 0) {
      pmu_access(i);
      RAW(SYS_mprotect, pe[i].u, PERF_PAGE, PROT_READ, 0, 0, 0);
      stepping = (int)i; g[REG_EFL] |= 0x100; errno = saved;
      return;
    }
  } else {
    const uint8_t *ip = (const uint8_t *)g[REG_RIP];
    if (ip[0] == 0x0f && ip[1] == 0x33) { // rdpmc
      pmu_tick();
      uint32_t reg = (uint32_t)g[REG_RCX]; uint64_t v = mix(cfg.seed, 0xBAD, reg, pmu_ticks) >> 16, who = ~0ull, n = 0;
      for (uint32_t i = 0; i < pe_n; i++) if ((pe[i].mapped || pe[i].fd_open) && pmu.ev[i].page[pe[i].cur].index == reg + 1 && pmu.ev[i].page[pe[i].cur].caps & 4) {
        uint32_t w = pmu.ev[i].page[pe[i].cur].width;
        who = i; n = pe[i].type == 0 && pe[i].config == 1 ? pe[i].truth : pe[i].count;
        v = (pmu.ev[i].base + pe[i].count) & (w >= 64 ? ~0ull : (1ull << w) - 1);
      }
      logev(EV_PMC, reg, who, n, pmu_mark);
      g[REG_RAX] = v & 0xffffffff; g[REG_RDX] = v >> 32; g[REG_RIP] += 2; errno = saved;
      return;
    }
    if (ip[0] == 0x0f && ip[1] == 0xa2) { // cpuid
      uint32_t x = (uint32_t)g[REG_RAX], b, c = (uint32_t)g[REG_RCX], d, leaf = x;
      RAW(SYS_arch_prctl, 0x1012, 1, 0, 0, 0, 0);
      __asm__ volatile("cpuid" : "+a"(x), "=b"(b), "+c"(c), "=d"(d));
      RAW(SYS_arch_prctl, 0x1012, 0, 0, 0, 0, 0);
      if (leaf == 0) { b = pmu.vendor[0]; d = pmu.vendor[1]; c = pmu.vendor[2]; pmu_tick(); }
      if (leaf == 1) x = pmu.version;
      g[REG_RAX] = x; g[REG_RBX] = b; g[REG_RCX] = c; g[REG_RDX] = d; g[REG_RIP] += 2; errno = saved;
      return;
    }
  }
  sigaction(SIGSEGV, &old_segv, NULL);
}
static long pmu_open(const uint8_t *attr, int pid, int cpu, int group, unsigned long fl) {
  if (pe_n >= PMU_EVENTS) return fail(EMFILE);
  uint32_t i = pe_n++;
  uint32_t type; uint64_t config, flags; memcpy(&type, attr, 4); memcpy(&config, attr + 8, 8); memcpy(&flags, attr + 40, 8);
  int e = pmu.ev[i].open_err;
  if (!e && pmu.paranoid >= 2 && !(flags & 32)) e = EACCES;
  if (!e && pmu.paranoid >= 1 && (cpu != -1 && pid == -1)) e = EACCES;
  if (!e && pid == -1 && cpu == -1) e = EINVAL;
  logev(EV_PERF, 0, i | (uint64_t)config << 16 | (uint64_t)type << 56, e, pmu_mark);
  sys_point();
  if (e) { pe[i].fd_open = 0; sh->nfault[F_ERR]++; return fail(e); }
  pe[i].fd_open = 1; pe[i].type = type; pe[i].config = config; pe[i].flags = flags; pe[i].pid = pid; pe[i].cpu = cpu;
  return PMU_FD + i;
}
static int pmu_close(int fd) {
  uint32_t i = fd - PMU_FD;
  logev(EV_PERF, 3, i, 0, pmu_mark);
  if (i >= pe_n || !pe[i].fd_open) return (int)fail(EBADF);
  pe[i].fd_open = 0;
  return 0;
}
static int pmu_fcntl(int fd, int cmd) {
  uint32_t i = fd - PMU_FD;
  if (i >= pe_n || !pe[i].fd_open) return (int)fail(EBADF);
  return cmd == F_GETFL ? O_RDWR : cmd == F_GETFD ? FD_CLOEXEC : cmd == F_SETFD || cmd == F_SETFL ? 0 : (int)fail(EINVAL);
}
static void *pmu_map(int fd, size_t len) {
  uint32_t i = fd - PMU_FD;
  int e = i >= pe_n || !pe[i].fd_open ? EBADF : (int)pmu.ev[i].map_err;
  logev(EV_PERF, 1, i, e, pmu_mark);
  sys_point();
  if (e) { if (i < pe_n) sh->nfault[F_ERR]++; errno = e; return MAP_FAILED; }
  int m = (int)RAW(SYS_memfd_create, "perf", 1, 0, 0, 0, 0);
  RAW(SYS_ftruncate, m, PERF_PAGE, 0, 0, 0, 0);
  pe[i].k = (uint8_t *)RAW(SYS_mmap, 0, PERF_PAGE, PROT_READ | PROT_WRITE, MAP_SHARED, m, 0);
  pe[i].u = (uint8_t *)RAW(SYS_mmap, 0, PERF_PAGE, PROT_NONE, MAP_SHARED, m, 0);
  RAW(SYS_close, m, 0, 0, 0, 0, 0);
  pe[i].ulen = len; pe[i].mapped = 1; pe[i].cur = 0; pe[i].access = 0;
  pmu_put(i);
  return pe[i].u;
}
void *mmap(void *p, size_t len, int prot, int flags, int fd, off_t off) {
  if (pmu_on && in_sim() && fd >= PMU_FD && fd < PMU_FD + PMU_EVENTS) return pmu_map(fd, len);
  if (!(flags & MAP_ANONYMOUS) && is_sim_fd(fd)) { // a copy, good enough for reading
    sys_point();
    if (fault_err(IO_READ)) return MAP_FAILED;
    if ((prot & PROT_WRITE) && (flags & MAP_SHARED)) unsupported("shared writable mapping");
    Inode *in = &inodes[FDP(fd)->ino];
    uint8_t *m = (uint8_t *)RAW(SYS_mmap, 0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if ((intptr_t)m < 0 && (intptr_t)m > -4096) return (void *)ret_errno((long)m);
    if ((uint64_t)off < in->len) memcpy(m, in->data + off, in->len - off < len ? in->len - off : len);
    RAW(SYS_mprotect, m, len, prot, 0, 0, 0);
    return m;
  }
  return (void *)ret_errno(RAW(SYS_mmap, p, len, prot, flags, fd, off));
}
void *mmap64(void *p, size_t len, int prot, int flags, int fd, off_t off) { return mmap(p, len, prot, flags, fd, off); }
int munmap(void *p, size_t len) {
  if (pmu_on) for (uint32_t i = 0; i < pe_n; i++) if (pe[i].mapped && (uint8_t *)p == pe[i].u) {
    logev(EV_PERF, 2, i, 0, pmu_mark);
    pe[i].mapped = 0;
    RAW(SYS_munmap, pe[i].k, PERF_PAGE, 0, 0, 0, 0);
    return (int)ret_errno(RAW(SYS_munmap, p, PERF_PAGE, 0, 0, 0, 0));
  }
  return (int)ret_errno(RAW(SYS_munmap, p, len, 0, 0, 0, 0));
}
uint32_t sim_open_fds(void) { uint32_t n = 0; for (int k = 0; k < MAXFD; k++) n += fds[k].used; return n; }
void sim_pmu_open_now(uint32_t *fds, uint32_t *maps) {
  *fds = *maps = 0;
  for (uint32_t i = 0; i < pe_n; i++) { *fds += pe[i].fd_open; *maps += pe[i].mapped; }
}
int sim_pmu_start(const SimPmu *p) {
  pmu = *p;
  struct sigaction a = {0};
  a.sa_sigaction = pmu_sig; a.sa_flags = SA_SIGINFO | SA_ONSTACK;
  sigaction(SIGSEGV, &a, &old_segv); sigaction(SIGTRAP, &a, &old_trap);
  uint64_t t = pmu_ticks; uint32_t lo, hi;
  uint64_t n = sh->evn;
  __asm__ volatile("rdpmc" : "=a"(lo), "=d"(hi) : "c"(0) : "memory");
  if (pmu_ticks == t) return -1;
  sh->evn = n; pmu_ticks = 0;
  pmu_on = 1;
  return RAW(SYS_arch_prctl, 0x1012, 0, 0, 0, 0, 0) == 0 ? 0 : 1;
}

// ---------------------------------------------------------------- directories
typedef struct { int used, n, pos; int list[MAXINO]; struct dirent64 de; } FakeDir;
static FakeDir fdirs[8];
static FakeDir *fake_dir(DIR *d) { return (char *)d >= (char *)fdirs && (char *)d < (char *)(fdirs + 8) ? (FakeDir *)d : NULL; }
DIR *opendir(const char *p) {
  if (!(in_sim() && is_sim_path(p))) { static DIR *(*r)(const char *); if (!r) r = dlsym(RTLD_NEXT, "opendir"); return r(p); }
  sys_point();
  if (fault_err(IO_OPEN)) return NULL;
  int i = lookup(p);
  if (i < 0) { errno = ENOENT; return NULL; }
  if (inodes[i].kind != 2) { errno = ENOTDIR; return NULL; }
  FakeDir *d = NULL;
  for (int k = 0; k < 8; k++) if (!fdirs[k].used) { d = &fdirs[k]; break; }
  if (!d) { errno = EMFILE; return NULL; }
  memset(d, 0, sizeof *d);
  d->used = 1;
  size_t pl = strlen(inodes[i].path);
  for (int k = 0; k < nino; k++) {
    if (!inodes[k].linked || k == i) continue;
    if (strncmp(inodes[k].path, inodes[i].path, pl) == 0 && inodes[k].path[pl] == '/' && !strchr(inodes[k].path + pl + 1, '/')) d->list[d->n++] = k;
  }
  // the order of directory entries is the file system's own
  for (int k = d->n - 1; k > 0; k--) { int j = (int)(mix(cfg.seed, 0xD1, k, i) % (k + 1)); int t = d->list[k]; d->list[k] = d->list[j]; d->list[j] = t; }
  return (DIR *)d;
}
struct dirent64 *readdir64(DIR *dir) {
  FakeDir *d = fake_dir(dir);
  if (!d) { static struct dirent64 *(*r)(DIR *); if (!r) r = dlsym(RTLD_NEXT, "readdir64"); return r(dir); }
  sys_point();
  if (fault_err(IO_OTHER)) return NULL;
  memset(&d->de, 0, sizeof d->de);
  d->de.d_reclen = sizeof d->de;
  if (d->pos < 2) { strcpy(d->de.d_name, d->pos ? ".." : "."); d->de.d_type = DT_DIR; d->de.d_ino = 1; d->pos++; return &d->de; }
  if (d->pos - 2 >= d->n) return NULL;
  Inode *in = &inodes[d->list[d->pos - 2]];
  strcpy(d->de.d_name, strrchr(in->path, '/') + 1);
  d->de.d_type = (mix(cfg.seed, 0xD7, d->pos, 0) & 3) == 0 ? DT_UNKNOWN : in->kind == 2 ? DT_DIR : DT_REG;
  d->de.d_ino = (in - inodes) + 1;
  d->pos++;
  return &d->de;
}
struct dirent *readdir(DIR *dir) { return (struct dirent *)readdir64(dir); }
int closedir(DIR *dir) {
  FakeDir *d = fake_dir(dir);
  if (!d) { static int (*r)(DIR *); if (!r) r = dlsym(RTLD_NEXT, "closedir"); return r(dir); }
  d->used = 0;
  return 0;
}
int dirfd(DIR *dir) {
  FakeDir *d = fake_dir(dir);
  if (!d) { static int (*r)(DIR *); if (!r) r = dlsym(RTLD_NEXT, "dirfd"); return r(dir); }
  return (int)fail(ENOTSUP);
}
char *getcwd(char *buf, size_t n) {
  if (toolmode && active) {
    size_t l = strlen(tool_cwd) + 1;
    if (!buf) { buf = malloc(l); n = l; }
    if (n < l) { errno = ERANGE; return NULL; }
    memcpy(buf, tool_cwd, l);
    return buf;
  }
  static char *(*r)(char *, size_t); if (!r) r = dlsym(RTLD_NEXT, "getcwd");
  return r(buf, n);
}
char *realpath(const char *p, char *out) {
  if (in_sim() && is_sim_path(p)) {
    sys_point();
    if (fault_err(IO_STAT)) return NULL;
    if (lookup(p) < 0) { errno = ENOENT; return NULL; }
    if (!out) out = malloc(4096);
    norm(p, out);
    return out;
  }
  static char *(*r)(const char *, char *); if (!r) r = dlsym(RTLD_NEXT, "realpath");
  return r(p, out);
}
__attribute__((constructor)) static void tool_boot(void) {
  const char *e = getenv("DST_SIM_FD");
  if (!e) return;
  unsetenv("LD_PRELOAD");
  uint8_t *m = mmap(NULL, TOOL_LEN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_NORESERVE, atoi(e), 0);
  if (m == MAP_FAILED) _exit(97);
  ToolHdr *h = (ToolHdr *)m;
  if (h->magic != TOOL_MAGIC) _exit(97);
  close(atoi(e));
  unsetenv("DST_SIM_FD");
  toolmode = 1;
  memcpy(tool_cwd, h->cwd, sizeof tool_cwd);
  sim_setup(&h->cfg, (SimShared *)(m + TOOL_OFF_SH), (SimEv *)(m + TOOL_OFF_EV), m + TOOL_OFF_WDATA, NULL, NULL, 0);
  // inode 1 = standard output, 2 = standard error
  add_inode("/sim/.stdout", 1); add_inode("/sim/.stderr", 1);
  for (int k = 0; k < 2; k++) { Fd *f = &fds[MAXFD - 2 + k]; f->used = 1; f->ino = 1 + k; f->flags = O_WRONLY; }
  uint8_t *p = m + TOOL_OFF_FILES;
  for (uint64_t i = 0; i < h->nfiles; i++) {
    uint64_t pl, dl, kind;
    memcpy(&pl, p, 8); memcpy(&dl, p + 8, 8); memcpy(&kind, p + 16, 8);
    char path[512]; memcpy(path, p + 24, pl); path[pl] = 0;
    sim_put_file(path, kind == 2 ? NULL : p + 24 + pl, dl);
    p += 24 + pl + dl;
  }
  sim_start();
}
