// Simulator core: scheduler, clocks, simulated file system, fault injection.
#pragma once
#include <stdint.h>
#include <stddef.h>

#define SIM_MAX_TASKS 24
#define SIM_EVLOG_CAP (1u << 20)
#define SIM_WDATA_CAP (768ull << 20)
#define SIM_MAX_FAULTS 512
#define SIM_MAX_SWITCH (1u << 17)

enum { POL_RANDOM = 0, POL_PCT = 1, POL_SYS = 2, POL_REPLAY = 3 };

// log entry kinds
enum {
  EV_SWITCH = 1,   // a=from local step, b=to, c=kind (0 preempt,1 block,2 exit,3 yield)
  EV_WRITE = 2,    // a=inode, b=offset, c=len ; d=offset in wdata (top bit: zeroes in the middle left out)
  EV_OPEN = 3,     // a=inode, b=flags, c=0
  EV_TRUNC = 4,    // a=inode, b=new size
  EV_CLOSE = 5,    // a=inode
  EV_FAULT = 6,    // a=kind, b=task-local io index, c=arg
  EV_WFAIL = 7,    // a=inode, b=offset, c=requested len, d=errno
  EV_READ = 8,     // a=inode, b=offset, c=len
  EV_MKDIR = 9,
  EV_UNLINK = 10,
  EV_RENAME = 11,
  EV_CRASH = 12,
  EV_WAKE = 13,
  EV_WALL = 14,    // a=value returned by a wall clock read
  EV_PMC = 15,     // performance counter register read: a=register, b=event (~0: none has it), c=events counted so far, d=mark
  EV_PERF = 16,    // counter system calls: a=what (0 open, 1 map, 2 unmap, 3 close, 4 update of the control page), b=event, c=errno, d=mark
};

// fault kinds
enum {
  F_NONE = 0,
  F_SHORT = 1,   // arg = bytes accepted (>=1)
  F_EINTR = 2,
  F_ERR = 3,     // arg = errno
  F_SHORT_READ = 4,
  F_SPURIOUS = 5, // spurious futex wake
  F_DISK = 6,     // disk capacity reached: arg = errno
  F_CLOCKTICK = 7,
  F_WALLJUMP = 8,
  F_CRASH = 9,
  F_KINDS = 16,
};
// io classes
enum { IO_WRITE = 0, IO_READ = 1, IO_OPEN = 2, IO_MKDIR = 3, IO_STAT = 4, IO_CLOSE = 5, IO_FUTEX = 6, IO_OTHER = 7, IO_CLASSES = 8 };

typedef struct {
  uint32_t task;   // 0xffffffff = any task (then idx counts globally per class)
  uint32_t cls;
  uint64_t idx;    // task-local (or global) index within class
  uint32_t kind;
  uint32_t pad;
  uint64_t arg;
} SimFault;

typedef struct {
  uint64_t cap_bytes;  // cumulative bytes after which writes fail (UINT64_MAX = never)
  uint32_t err;
  uint32_t pad;
  uint64_t fail_calls; // number of failing calls before space appears again
} SimDisk;

typedef struct {
  uint32_t from, to;
  uint64_t step; // local step of `from`
} SimSwitch;

typedef struct {
  uint64_t seed;
  uint32_t policy;
  uint32_t nfaults;
  uint64_t mean;        // mean preemption interval (POL_RANDOM)
  uint64_t horizon;     // step horizon for PCT change points
  uint32_t pct_depth;
  uint32_t p_short;     // per-256 probability of a short write / read
  uint32_t p_eintr;
  uint32_t p_spurious;
  uint64_t max_steps;
  uint64_t crash_step;  // 0 = none: kill the process at this global step
  int64_t mono0, wall0;
  uint64_t tick_max;    // each monotonic read first advances the clock by 0..=tick_max
  uint32_t p_tick;      // per-256 probability of such an advance
  uint32_t p_walljump;  // per-256 probability of a wall jump at any clock read
  uint32_t pid;
  uint32_t p_sys;       // per-256 probability of a switch at a system call
  SimDisk disk[4];
  uint32_t ndisk;
  uint32_t nswitch;
  uint64_t keep;        // when not 0: of a write whose middle is all zeroes only this many bytes at either end are kept
  SimFault faults[SIM_MAX_FAULTS];
} SimCfg;

typedef struct {
  uint64_t step;
  uint32_t task;
  uint32_t kind;
  uint64_t a, b, c, d;
} SimEv;

enum { ST_INIT = 0, ST_RUNNING = 1, ST_DONE = 2, ST_CRASHED = 3, ST_DEADLOCK = 4, ST_BUDGET = 5, ST_UNSUPPORTED = 6 };

typedef struct {
  volatile uint32_t state;
  uint32_t ntasks;
  uint64_t step;
  uint64_t switches;
  uint64_t sched_hash;
  uint64_t evn;
  uint64_t ev_overflow;
  uint64_t wdata_len;
  int64_t mono, wall_off;
  int64_t mono_start;
  uint64_t nfault[F_KINDS];
  uint64_t io_calls[IO_CLASSES];
  uint64_t edges;     // distinct guards hit
  uint64_t clock_reads;
  uint32_t dead_state[SIM_MAX_TASKS];
  uint64_t local_steps[SIM_MAX_TASKS];
  uint64_t ninodes;
  char paths[64][256];
  char note[256];
  uint64_t probes[64];
} SimShared;

void sim_setup(const SimCfg *cfg, SimShared *sh, SimEv *ev, uint8_t *wdata, const SimSwitch *sw, uint8_t *covmap, uint64_t covlen);
void sim_start(void);   // calling thread becomes task 0
void sim_stop(void);    // leaves simulated mode
void sim_yield_hook(void);
void sim_rebase(void);
char **sim_argv(int *argc);
uint64_t sim_step(void);
int64_t sim_mono(void);
int64_t sim_wall(void);
void sim_advance(uint64_t ns);
void sim_walljump(int64_t ns);
void sim_probe(uint32_t i);
int sim_in_task(void);
uint32_t sim_task(void);
void sim_put_file(const char *path, const uint8_t *data, uint64_t len);
void sim_set_nopreempt(int on);
uint64_t sim_guard_count(void);

// ---- performance counters
#define PMU_EVENTS 8
#define PMU_UPDATES 8
typedef struct { uint64_t at; uint32_t index, width; uint64_t caps; } PmuPage;  // control page contents from the at-th access on
typedef struct {
  uint32_t open_err, map_err, npage, pad;
  uint64_t base;                      // raw register value at creation
  PmuPage page[PMU_UPDATES];
} PmuEvent;
typedef struct {
  uint32_t vendor[3];                 // ebx, edx, ecx of cpuid(0)
  uint32_t version;                   // eax of cpuid(1)
  uint32_t irq_config, paranoid;
  uint32_t step_max, p_irq;           // events happening between two accesses
  PmuEvent ev[PMU_EVENTS];            // in order of perf_event_open calls
} SimPmu;
int sim_pmu_start(const SimPmu *p);   // 0: CPU model simulated, 1: only the native model, -1: not possible here
void sim_mark(uint64_t m);
uint32_t sim_open_fds(void);
void sim_pmu_open_now(uint32_t *fds, uint32_t *maps);

// ---- command line tools: a real process of its own, described by an inherited memory file
typedef struct {
  uint64_t magic, nfiles, files_len, pad;
  char cwd[256];
  SimCfg cfg;
} ToolHdr;
#define TOOL_MAGIC 0x4453545f544f4f4cull
#define TOOL_OFF_SH (1ull << 16)
#define TOOL_OFF_EV (1ull << 20)
#define TOOL_OFF_WDATA (64ull << 20)
#define TOOL_OFF_FILES (TOOL_OFF_WDATA + SIM_WDATA_CAP)
#define TOOL_FILES_CAP (256ull << 20)
#define TOOL_LEN (TOOL_OFF_FILES + TOOL_FILES_CAP)
