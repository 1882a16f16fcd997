// Deterministic simulation runtime: owns thread scheduling, futexes, clock, entropy, CPU count,
// file I/O faults and the heap of the simulated process. One OS thread runs at a time (the baton).
// Compiled WITHOUT instrumentation and linked into the harness executable.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8; typedef int64_t i64;
#define LIKELY(x) __builtin_expect(!!(x), 1)
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

// ---------------------------------------------------------------- raw syscalls
static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static inline long ret_errno(long r) { if (r < 0 && r > -4096) { errno = (int)-r; return -1; } return r; }

// ---------------------------------------------------------------- shared structures (mirrored in rt.rs)
typedef struct { u64 at; u32 kind; u32 arg; } Ent;      // schedule / fault trace entry
enum { K_QUANT = 0, K_SYNC = 1, K_FORCED = 2, K_WAKEPICK = 3, K_SPUR = 4, K_JUMP = 5 };
typedef struct {
  u64 seed; u32 mode; u32 pct_depth; u64 mean_q; u64 pct_len; u64 step_cap;
  u32 stall_per1024; u32 spur_per1024; u64 stall_max;
  u64 ent_seed; u32 ent_mode; u32 ent_fault;
  u64 clock_base; u32 jump_per1024; u32 ncpu; u64 jump_max;
  u64 heap_off; u32 heap_down; u32 heap_reuse; u64 garbage_seed; u32 garbage_mode; u32 check;
  const Ent *sched; u64 nsched; const Ent *occ; u64 nocc;
  u64 env_seed; u32 pool; u32 pad;
} SimCfg;
typedef struct { // I/O faults
  u32 kind; // 1 open errno at occurrence, 2 read EINTR at occurrence, 3 short read at occurrence (arg bytes),
            // 4 EIO from offset, 5 EOF from offset, 6 read errno at occurrence (permanent from there on), 7 lseek errno
  u32 arg; u64 at;
} IoFault;
#define MAXREC (1u << 18)
typedef struct {
  volatile u32 verdict; // 0 none/crash, 1 finished, 2 deadlock, 3 step cap, 4 memory, 5 thread limit, 6 heap corruption
  u32 nthreads; u64 steps; u64 time; u64 switches; u64 preempts; u64 sched_hash; u64 nrec; u32 rec_overflow; u32 blocked;
  u64 f_stall, f_spur, f_wakepick, f_jump, f_entropy_calls, f_entropy_bytes, f_entropy_eintr, f_entropy_short, f_yield, f_clock_reads, f_env;
  u64 f_io[8]; u64 io_reads, io_opens, io_live;
  u64 heap_allocs, heap_bytes, heap_reused, mem_checks;
  u64 bad_addr, bad_size, bad_write, bad_pc, bad_alloc, bad_alloc_size; u32 bad_kind; u32 bad_pad;
  char msg[512];
  Ent rec[MAXREC];
} SimRes;

SimRes *sim_res;
static SimCfg cfg;
static IoFault io_faults[64]; static u32 n_io_faults;
static char io_root[512]; static size_t io_root_len;

// ---------------------------------------------------------------- PRNG
static inline u64 mix(u64 *s) { u64 z = (*s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static u64 rs_sched, rs_fault, rs_ent, rs_heap;

// ---------------------------------------------------------------- threads
#define MAXT 128
enum { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_EXIT };
struct dtor { void (*f)(void *); void *p; };
typedef struct {
  volatile u32 baton; u32 state; void *waddr; u32 wmask; u32 timedout; u64 deadline; u64 stall_until; i64 prio; u64 wseq;
  pthread_t real; int joinee; int joined; void *(*fn)(void *); void *arg; void *ret;
  struct dtor dt[64]; int ndt; u64 run_since;
} Thr;
static Thr thr[MAXT];
static int nthr, cur; static volatile int active; static int heap_on;
static __thread int my_tid = -1;
i64 sim_cd = (i64)1 << 62;        // countdown to the next scheduling decision
static u64 last_q;                // step of the last preemption
static u64 seg_end;               // step number at which sim_cd reaches 0
static u64 time_extra, wseq_ctr, n_wait, n_wake, n_clock;
static u64 pct_pts[64]; static int pct_n, pct_i; static i64 prio_low;
static u32 burst_left; static u64 isched;

static inline u64 now_steps(void) { return seg_end - (u64)sim_cd; }
static inline u64 now_time(void) { return now_steps() + time_extra; }
static inline void set_q(u64 q) { u64 n = now_steps(); sim_cd = (i64)q; seg_end = n + q; }

u32 sim_lastguard;
u8 *sim_cov; u32 sim_ncov;

__attribute__((noreturn)) static void die(u32 verdict) {
  sim_res->steps = now_steps(); sim_res->time = now_time(); sim_res->nthreads = nthr;
  sim_res->verdict = verdict;
  raw6(SYS_exit_group, 40 + verdict, 0, 0, 0, 0, 0); __builtin_unreachable();
}

static void record(u64 at, u32 kind, u32 arg) {
  if (sim_res->nrec < MAXREC) { Ent *e = &sim_res->rec[sim_res->nrec++]; e->at = at; e->kind = kind; e->arg = arg; }
  else sim_res->rec_overflow = 1;
}

static void baton_wait(int me) {
  while (__atomic_load_n(&thr[me].baton, __ATOMIC_ACQUIRE) == 0)
    raw6(SYS_futex, (long)&thr[me].baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  thr[me].baton = 0;
}
static void baton_give(int t) {
  cur = t; thr[t].run_since = now_steps();
  __atomic_store_n(&thr[t].baton, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&thr[t].baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static void fire_timers(void) {
  u64 t = now_time();
  for (int i = 0; i < nthr; i++)
    if ((thr[i].state == T_FUTEX || thr[i].state == T_SLEEP) && thr[i].deadline && thr[i].deadline <= t) {
      thr[i].timedout = 1; thr[i].state = T_RUN; thr[i].deadline = 0; thr[i].waddr = 0;
    }
}
static int runnable(int *list, int honour_stall) {
  int n = 0; u64 s = now_steps();
  for (int i = 0; i < nthr; i++) if (thr[i].state == T_RUN && (!honour_stall || thr[i].stall_until <= s)) list[n++] = i;
  return n;
}
static int default_pick(int *list, int n) { // round robin after cur
  for (int i = 0; i < n; i++) if (list[i] > cur) return list[i];
  return list[0];
}
static u64 draw_quantum(void) {
  // a run with very many context switches goes on in longer turns, so that its cost stays bounded
  if (cfg.mode != 2 && sim_res->switches > 60000) return 1 + mix(&rs_sched) % (cfg.mean_q * 2 + sim_res->switches / 8);
  switch (cfg.mode) {
    case 1: return 1 + mix(&rs_sched) % (2 * cfg.mean_q);
    case 2: { u64 n = now_steps(); u64 q = 300000; if (pct_i < pct_n) { u64 d = pct_pts[pct_i] > n ? pct_pts[pct_i] - n : 1; if (d < q) q = d; } return q; }
    case 3: if (burst_left) { burst_left--; return 1 + mix(&rs_sched) % 24; }
            if (mix(&rs_sched) % 3 == 0) burst_left = 4 + mix(&rs_sched) % 40;
            return 1 + mix(&rs_sched) % (2 * cfg.mean_q);
    case 5: return 1 + mix(&rs_sched) % (cfg.mean_q * (mix(&rs_sched) & 3 ? 4 : 100));
    default: return 500000;
  }
}
static void next_quantum(void) {
  if (cfg.mode == 4) {
    u64 n = now_steps();
    while (isched < cfg.nsched && cfg.sched[isched].at < n) isched++;
    if (isched < cfg.nsched) {
      const Ent *e = &cfg.sched[isched];
      u64 q = e->at > n ? e->at - n - 1 : 0;
      if (e->kind != K_QUANT) q = 500000 < q + 1 ? 500000 : q + 1;
      if (q > 500000) q = 500000;
      set_q(q);
    } else set_q(500000);
  } else set_q(draw_quantum());
}

// Choose who runs next. kind: K_QUANT (preemption), K_SYNC (after a wake/spawn/yield), K_FORCED (current cannot run).
static void resched(int kind) {
  int list[MAXT], n;
  if (now_steps() > cfg.step_cap) die(3);
  fire_timers();
  n = runnable(list, 1);
  if (!n) n = runnable(list, 0);
  while (!n) {
    u64 m = ~0ull;
    for (int i = 0; i < nthr; i++) if ((thr[i].state == T_FUTEX || thr[i].state == T_SLEEP) && thr[i].deadline && thr[i].deadline < m) m = thr[i].deadline;
    if (m == ~0ull) { sim_res->blocked = 0; for (int i = 0; i < nthr; i++) if (thr[i].state == T_FUTEX || thr[i].state == T_JOIN) sim_res->blocked++; die(2); }
    if (m > now_time()) time_extra += m - now_time();
    fire_timers(); n = runnable(list, 0);
  }
  int t, cur_ok = thr[cur].state == T_RUN; u64 s = now_steps();
  int rr = default_pick(list, n);
  switch (cfg.mode) {
    case 1: case 3: case 5: t = list[mix(&rs_sched) % n]; break;
    case 2: {
      if (kind == K_QUANT) {
        if (pct_i < pct_n && pct_pts[pct_i] <= s) { thr[cur].prio = --prio_low; while (pct_i < pct_n && pct_pts[pct_i] <= s) pct_i++; }
        else if (s - thr[cur].run_since > 250000) thr[cur].prio = --prio_low;
      }
      t = list[0]; for (int i = 1; i < n; i++) if (thr[list[i]].prio > thr[t].prio) t = list[i];
      break;
    }
    case 4: {
      while (isched < cfg.nsched && cfg.sched[isched].at < s) isched++;
      t = -1;
      while (isched < cfg.nsched && cfg.sched[isched].at == s) {
        const Ent *e = &cfg.sched[isched];
        if (e->kind == (u32)kind) { isched++; int w = (int)e->arg; if (w < nthr && thr[w].state == T_RUN) t = w; break; }
        if (kind == K_FORCED) break;  // entry belongs to a later decision at this step
        break;
      }
      if (t < 0) t = (kind == K_FORCED || !cur_ok) ? rr : (kind == K_QUANT && s - thr[cur].run_since > 3000000 ? rr : cur);
      break;
    }
    default: t = (kind == K_QUANT && s - thr[cur].run_since < 3000000 && cur_ok) ? cur : rr; break;
  }
  if (cfg.mode != 4 && cfg.stall_per1024 && n > 1 && (mix(&rs_fault) & 1023) < cfg.stall_per1024) {
    int v = list[mix(&rs_fault) % n];
    if (v != t) { thr[v].stall_until = s + 1 + mix(&rs_fault) % cfg.stall_max; sim_res->f_stall++; }
  }
  int me = cur, differs = t != me;
  if (kind == K_FORCED ? 1 : differs) {
    if (!(kind == K_FORCED && t == rr && cfg.mode != 4 && 0)) record(s, kind, t);
    sim_res->sched_hash = (sim_res->sched_hash ^ ((u64)t + ((u64)sim_lastguard << 8) + ((u64)kind << 40))) * 0x100000001B3ull;
    sim_res->sched_hash ^= sim_res->sched_hash >> 29;
  }
  if (differs) { sim_res->switches++; if (kind == K_QUANT) sim_res->preempts++; }
  next_quantum();
  if (!differs) { if (thr[me].state == T_RUN && kind == K_FORCED) {} return; }
  int exiting = thr[me].state == T_EXIT;
  baton_give(t);
  if (!exiting) baton_wait(me);
}
static void sync_point(int always) {
  if (!active || my_tid < 0) return;
  if (cfg.mode == 4) { resched(K_SYNC); return; }
  if (always || (cfg.mode && (mix(&rs_sched) & 3) == 0)) resched(K_SYNC);
}
static __attribute__((noinline)) void slow(void) {
  if (!active || my_tid < 0) { sim_cd = (i64)1 << 62; seg_end = 0; return; }
  last_q = now_steps(); resched(K_QUANT);
}
static inline void step(void) { if (UNLIKELY(--sim_cd < 0)) slow(); }
void sim_point(void) { sync_point(0); }

// Mode 5: preempt where it matters. Code that is executed seldom (call entry and exit, publication of results,
// cache hits) and accesses to the process's static data are scheduling points with high probability; loops are not.
static int m5; static u8 *m5_cnt; static u32 m5_lim, m5_p; static u32 m5_glob; extern char __data_start[], _end[];
static u64 glob_lo, glob_len;
static __attribute__((noinline)) void rare_slow(void) { if (active && my_tid >= 0 && nthr > 1 && now_steps() != last_q && mix(&rs_sched) % m5_p == 0) { last_q = now_steps(); resched(K_QUANT); } }
static inline void rare(u32 g) { if (m5_cnt[g] < m5_lim) { m5_cnt[g]++; rare_slow(); } }
static __attribute__((noinline)) void glob_slow(void) { if (active && my_tid >= 0 && nthr > 1 && m5_glob && now_steps() != last_q && (mix(&rs_sched) & 1) == 0) { m5_glob--; last_q = now_steps(); resched(K_QUANT); } }
static inline void glob(u64 a) { if (UNLIKELY(a - glob_lo < glob_len)) glob_slow(); }
static void m5_begin(void) {
  m5 = cfg.mode == 5; glob_len = 0; if (!m5) return;
  glob_lo = (u64)__data_start; glob_len = (u64)_end - glob_lo; m5_glob = 3000;
  m5_p = 2u << (mix(&rs_sched) % 5); m5_lim = 4u << (mix(&rs_sched) % 5);
  u64 n = sim_ncov + 8; if (!m5_cnt) m5_cnt = (u8 *)raw6(SYS_mmap, 0, (long)n, 3, 0x22, -1, 0);
  for (u64 i = 0; i < n; i++) m5_cnt[i] = 0;
}

// ---------------------------------------------------------------- simulated heap
#define HB 0x100000000000ull
#define HSZ (3ull << 30)
#define SHB 0x110000000000ull   // shadow: 1 byte per 8
#define RECB 0x120000000000ull
typedef struct { u64 ptr, size; u32 rz, live; u64 next; } HRec;
static HRec *hrec = (HRec *)RECB; static u64 nhrec; static u64 hup, hdn;
#define NB 65536
static u64 *fl; // free lists by size class
static inline u8 *shadow(u64 a) { return (u8 *)(SHB + ((a - HB) >> 3)); }
static inline void raw_set(u64 p, int c, u64 n) { __asm__ volatile("rep stosb" : "+D"(p), "+c"(n) : "a"(c) : "memory"); }
static void fill(u64 p, u64 n) {
  if (cfg.garbage_mode == 1) { raw_set(p, 0, n); return; }
  if (cfg.garbage_mode == 2) { raw_set(p, 0xFF, n); return; }
  u64 x = mix(&rs_heap) | 1; u64 *w = (u64 *)p, k = n >> 3;
  for (u64 i = 0; i < k; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; w[i] = x; }
  for (u64 i = k << 3; i < n; i++) ((u8 *)p)[i] = (u8)(x >> (8 * (i & 7)));
}
static void set_shadow(u64 p, u64 size) {
  u8 *s = shadow(p); u64 g = size >> 3;
  __builtin_memset(s, 8, g); if (size & 7) s[g] = size & 7;
}
static inline u64 rnd16(u64 x) { return (x + 15) & ~15ull; }
static inline u32 rz_of(u64 size) { u64 r = rnd16(size / 4); if (r < 64) r = 64; if (r > 4096) r = 4096; return (u32)r; }
static inline u32 bucket(u64 rs) { return (u32)((rs >> 4) * 2654435761u >> 5) & (NB - 1); }
static int is_sim_ptr(u64 p) { return p - HB < HSZ; }
void *sim_alloc(u64 size, u64 align) {
  if (UNLIKELY(size >= HSZ)) { snprintf(sim_res->msg, 500, "allocation of %llu bytes", (unsigned long long)size); die(8); }
  u64 rs = rnd16(size ? size : 1); u32 rz = rz_of(size); u64 p = 0;
  sim_res->heap_allocs++; sim_res->heap_bytes += size;
  if ((cfg.heap_reuse || hup - HB > (HSZ >> 1) || HB + HSZ - hdn > (HSZ >> 1)) && align <= 16) {
    u64 *q = &fl[bucket(rs)];
    while (*q) { HRec *r = &hrec[*q]; if (rnd16(r->size ? r->size : 1) == rs && rz_of(r->size) == rz) { u64 id = *q; *q = r->next; p = r->ptr; r->size = size; r->live = 1; r->rz = rz; (void)id; sim_res->heap_reused++; break; } q = &r->next; }
    if (p) { set_shadow(p, size); return (void *)p; } // content: whatever the previous owner left (poisoned on free unless reuse)
  }
  if (align < 16) align = 16;
  u64 id = ++nhrec; HRec *r = &hrec[id];
  if (!cfg.heap_down) {
    p = (hup + rz + align - 1) & ~(align - 1);
    if (p + rs + rz > hdn) { snprintf(sim_res->msg, 500, "simulated heap exhausted"); die(7); }
    fill(hup, p + rs + rz - hup); hup = p + rs + rz;
  } else {
    p = (hdn - rz - rs) & ~(align - 1);
    if (p < hup + rz) { snprintf(sim_res->msg, 500, "simulated heap exhausted"); die(7); }
    fill(p - rz, hdn - (p - rz)); hdn = p - rz;
  }
  r->ptr = p; r->size = size; r->rz = rz; r->live = 1; r->next = 0;
  // left guard: record index + magic; right guard byte pattern, left as garbage copy of a hash
  ((u64 *)p)[-1] = id ^ 0xA5C35A3C96E1D20Full; ((u64 *)p)[-2] = ~(((u64 *)p)[-1]);
  u64 *e = (u64 *)(p + rs); for (int i = 0; i < 4; i++) e[i] = (id * 0x9E3779B97F4A7C15ull) ^ (u64)i;
  for (u64 b = p + size; b < p + rs; b++) *(u8 *)b = 0xD7;
  set_shadow(p, size);
  return (void *)p;
}
static void corrupt(HRec *r, u64 p, const char *what) {
  sim_res->bad_addr = p; sim_res->bad_alloc = r ? r->ptr : 0; sim_res->bad_alloc_size = r ? r->size : 0;
  snprintf(sim_res->msg, 500, "heap corruption (%s) around a block of %llu bytes", what, r ? (unsigned long long)r->size : 0ull);
  if (cfg.check) die(6);
}
static int check_block(HRec *r, u64 id) {
  u64 p = r->ptr, rs = rnd16(r->size ? r->size : 1);
  if (((u64 *)p)[-1] != (id ^ 0xA5C35A3C96E1D20Full) || ((u64 *)p)[-2] != ~((u64 *)p)[-1]) return 1;
  u64 *e = (u64 *)(p + rs); for (int i = 0; i < 4; i++) if (e[i] != ((id * 0x9E3779B97F4A7C15ull) ^ (u64)i)) return 2;
  if (!sim_res->heap_reused) for (u64 b = p + r->size; b < p + rs; b++) if (*(u8 *)b != 0xD7) return 3;
  return 0;
}
void sim_free(void *vp, u64 size) {
  u64 p = (u64)vp; u64 id = ((u64 *)p)[-1] ^ 0xA5C35A3C96E1D20Full;
  if (id == 0 || id > nhrec || hrec[id].ptr != p) { corrupt(0, p, "block header overwritten"); return; }
  HRec *r = &hrec[id];
  if (!r->live) { corrupt(r, p, "double free"); return; }
  if (check_block(r, id)) corrupt(r, p, "guard bytes overwritten");
  r->live = 0;
  u64 rs = rnd16(r->size ? r->size : 1);
  __builtin_memset(shadow(p), 0, rs >> 3);
  if (!cfg.heap_reuse) fill(p, r->size);
  u32 b = bucket(rs); r->next = fl[b]; fl[b] = id; (void)size;
}
int sim_heap_active(void) { return heap_on && my_tid >= 0; }
int sim_heap_owns(void *p) { return is_sim_ptr((u64)p); }
// Write `seed`-derived garbage to the unused part of the caller's stack.
__attribute__((noinline)) void sim_scribble_stack(void) {
  volatile u8 buf[192 * 1024]; if (!active) return; fill((u64)buf, sizeof buf); __asm__ volatile("" ::"r"(buf) : "memory");
}

static __attribute__((noinline)) void mem_bad(u64 a, u32 n, int w, void *pc) {
  sim_res->bad_addr = a; sim_res->bad_size = n; sim_res->bad_write = w; sim_res->bad_pc = (u64)pc; sim_res->bad_kind = 0;
  // nearest block
  HRec *best = 0; u64 bd = ~0ull;
  for (u64 i = 1; i <= nhrec; i++) { HRec *r = &hrec[i]; u64 d = a < r->ptr ? r->ptr - a : (a >= r->ptr + r->size ? a - (r->ptr + r->size) + 1 : 0); if (d < bd || (d == bd && r->live)) { bd = d; best = r; } }
  if (best) {
    sim_res->bad_alloc = best->ptr; sim_res->bad_alloc_size = best->size;
    i64 off = (i64)(a - best->ptr);
    snprintf(sim_res->msg, 500, "%s of %u bytes at offset %lld of a %s block of %llu bytes", w ? "write" : "read", n, (long long)off, best->live ? "live" : "freed", (unsigned long long)best->size);
  } else snprintf(sim_res->msg, 500, "%s of %u bytes outside any block", w ? "write" : "read", n);
  die(4);
}
static inline void chk(u64 a, u32 n, int w, void *pc) {
  if (LIKELY(a - HB >= HSZ) || !cfg.check || !active) return;
  u64 e = a + n - 1; 
  if (UNLIKELY(e - HB >= HSZ)) mem_bad(a, n, w, pc);
  u8 s0 = *shadow(a), s1 = *shadow(e);
  if (UNLIKELY(s1 <= (e & 7) || (s0 != 8 && (a >> 3) != (e >> 3)))) mem_bad(a, n, w, pc);
  if (n == 16) { u8 sm = *shadow(a + 8); if (UNLIKELY(sm == 0)) mem_bad(a, n, w, pc); }
}
#define HOOK(n) \
  void __sanitizer_cov_load##n(void *p) { chk((u64)p, n, 0, __builtin_return_address(0)); step(); glob((u64)p); } \
  void __sanitizer_cov_store##n(void *p) { chk((u64)p, n, 1, __builtin_return_address(0)); step(); glob((u64)p); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)

void __sanitizer_cov_trace_pc_guard_init(u32 *a, u32 *b) {
  static u32 n; if (a == b || *a) return; for (u32 *p = a; p < b; p++) *p = ++n; sim_ncov = n;
}
void __sanitizer_cov_trace_pc_guard(u32 *g) { sim_lastguard = *g; if (sim_cov) sim_cov[*g] = 1; step(); if (UNLIKELY(m5)) rare(*g); }

// memcpy family: range-checked in the simulated heap (covers slice copies and fills made by std)
static __attribute__((noinline)) void chk_range_slow(u64 a, u64 n, int w, void *pc) {
  u64 e = a + n - 1; if (e - HB >= HSZ) mem_bad(a, (u32)n, w, pc);
  u8 *s = shadow(a), *t = shadow(e);
  if (s == t) { if (*s <= (e & 7)) mem_bad(a, (u32)n, w, pc); return; }
  for (u8 *q = s; q < t; q++) if (*q != 8) mem_bad(a, (u32)n, w, pc);
  if (*t <= (e & 7)) mem_bad(a, (u32)n, w, pc);
}
static inline void chk_range(const void *p, u64 n, int w, void *pc) {
  if (!n || (u64)p - HB >= HSZ || !active || !cfg.check || my_tid < 0) return;
  chk_range_slow((u64)p, n, w, pc);
}
void *memcpy(void *d, const void *s, size_t n) {
  chk_range(s, n, 0, __builtin_return_address(0)); chk_range(d, n, 1, __builtin_return_address(0));
  void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r;
}
void *memmove(void *d, const void *s, size_t n) {
  chk_range(s, n, 0, __builtin_return_address(0)); chk_range(d, n, 1, __builtin_return_address(0));
  void *r = d;
  if ((u64)d - (u64)s >= n) __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
  else { u8 *dd = (u8 *)d + n - 1; const u8 *ss = (const u8 *)s + n - 1; __asm__ volatile("std; rep movsb; cld" : "+D"(dd), "+S"(ss), "+c"(n)::"memory"); }
  return r;
}
void *memset(void *d, int c, size_t n) {
  chk_range(d, n, 1, __builtin_return_address(0));
  void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r;
}

// ---------------------------------------------------------------- interposed threads and futexes
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);
static int (*real_atexit)(void (*)(void *), void *, void *);
static int (*real_clock)(clockid_t, struct timespec *);
extern void *__dso_handle;

static void *tramp(void *a) {
  int t = (int)(intptr_t)a; my_tid = t; baton_wait(t);
  void *r = thr[t].fn(thr[t].arg);
  while (thr[t].ndt) { struct dtor d = thr[t].dt[--thr[t].ndt]; d.f(d.p); }
  thr[t].ret = r; thr[t].state = T_EXIT;
  for (int i = 0; i < nthr; i++) if (thr[i].state == T_JOIN && thr[i].joinee == t) thr[i].state = T_RUN;
  resched(K_FORCED); my_tid = -1;
  return r;
}
int pthread_create(pthread_t *out, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!active || my_tid < 0) { if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create"); return real_create(out, at, fn, arg); }
  if (nthr >= MAXT) die(5);
  int t = nthr; Thr *h = &thr[t]; memset(h, 0, sizeof *h);
  h->fn = fn; h->arg = arg; h->state = T_RUN; h->prio = (i64)(mix(&rs_sched) >> 2);
  int rc = real_create(out, at, tramp, (void *)(intptr_t)t);
  if (rc) return rc;
  h->real = *out; nthr++;
  sync_point(0);
  return 0;
}
int pthread_join(pthread_t th, void **ret) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (!active || my_tid < 0) return real_join(th, ret);
  int t = -1; for (int i = nthr - 1; i > 0; i--) if (thr[i].real == th && !thr[i].joined) { t = i; break; }
  if (t < 0) return real_join(th, ret);
  if (thr[t].state != T_EXIT) { thr[my_tid].state = T_JOIN; thr[my_tid].joinee = t; resched(K_FORCED); }
  thr[t].joined = 1;
  return real_join(th, ret);
}
int __cxa_thread_atexit_impl(void (*f)(void *), void *p, void *dso) {
  if (!active || my_tid < 0) {
    if (!real_atexit) real_atexit = dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
    return real_atexit ? real_atexit(f, p, dso) : 0;
  }
  Thr *h = &thr[my_tid]; if (h->ndt < 64) { h->dt[h->ndt].f = f; h->dt[h->ndt++].p = p; }
  return 0;
}
static const Ent *occ_find(u32 kind, u64 at) { for (u64 i = 0; i < cfg.nocc; i++) if (cfg.occ[i].kind == kind && cfg.occ[i].at == at) return &cfg.occ[i]; return 0; }
static long do_futex(u32 *addr, int op, u32 val, const struct timespec *ts, u32 *addr2, u32 val3) {
  int cmd = op & FUTEX_CMD_MASK; (void)addr2;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    step();
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    u64 k = n_wait++;
    int spur = cfg.mode == 4 ? occ_find(K_SPUR, k) != 0 : (cfg.spur_per1024 && (mix(&rs_fault) & 1023) < cfg.spur_per1024);
    if (spur) { sim_res->f_spur++; record(k, K_SPUR, 0); sync_point(1); return 0; }
    Thr *h = &thr[my_tid]; h->waddr = addr; h->wmask = cmd == FUTEX_WAIT ? ~0u : val3; h->timedout = 0; h->deadline = 0; h->wseq = ++wseq_ctr;
    if (ts) {
      u64 d = (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec;
      if (cmd == FUTEX_WAIT) d += now_time();
      else if (op & FUTEX_CLOCK_REALTIME) { long long rel = (long long)(d - cfg.clock_base * 1000000000ull); d = rel > 0 ? (u64)rel : 1; }
      h->deadline = d ? d : 1;
    }
    h->state = T_FUTEX; resched(K_FORCED);
    if (h->timedout) { h->timedout = 0; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    u32 mask = cmd == FUTEX_WAKE ? ~0u : val3; long woken = 0;
    while (woken < (long)val) {
      int l[MAXT], n = 0;
      for (int i = 0; i < nthr; i++) if (thr[i].state == T_FUTEX && thr[i].waddr == addr && (thr[i].wmask & mask)) l[n++] = i;
      if (!n) break;
      int f = 0; for (int i = 1; i < n; i++) if (thr[l[i]].wseq < thr[l[f]].wseq) f = i;
      if (n > 1 && (long)val < n) {
        u64 k = n_wake++; 
        if (cfg.mode == 4) { const Ent *e = occ_find(K_WAKEPICK, k); if (e) f = e->arg % n; }
        else if (cfg.mode && (mix(&rs_fault) & 1)) { f = mix(&rs_fault) % n; record(k, K_WAKEPICK, f); sim_res->f_wakepick++; }
      }
      Thr *h = &thr[l[f]]; h->state = T_RUN; h->deadline = 0; h->timedout = 0; h->waddr = 0; woken++;
    }
    step(); sync_point(0);
    return woken;
  }
  errno = ENOSYS; return -1;
}
static u64 n_ent;
static ssize_t do_getrandom(void *buf, size_t n, unsigned flags) {
  (void)flags; u8 *b = buf; sim_res->f_entropy_calls++; n_ent++;
  if (cfg.ent_fault && (n_ent % 3) == 1 && n_ent < 40) {
    if (cfg.ent_fault & 1 && (mix(&rs_ent) & 1)) { sim_res->f_entropy_eintr++; errno = EINTR; return -1; }
    if (cfg.ent_fault & 2 && n > 1) { n = 1 + mix(&rs_ent) % (n - 1); sim_res->f_entropy_short++; }
  }
  static u64 per, ctr; 
  for (size_t i = 0; i < n; i++) switch (cfg.ent_mode) {
    case 1: b[i] = 0; break;
    case 2: b[i] = 0xFF; break;
    case 3: if (!per) per = mix(&rs_ent); b[i] = (u8)(per >> (8 * (ctr++ & 7))); break;
    case 4: b[i] = (u8)(ctr++ + cfg.ent_seed); break;
    default: { static u64 w; if (!(ctr & 7)) w = mix(&rs_ent); b[i] = (u8)(w >> (8 * (ctr++ & 7))); }
  }
  sim_res->f_entropy_bytes += n;
  step();
  return (ssize_t)n;
}
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (!active || my_tid < 0) return ret_errno(raw6(SYS_getrandom, (long)buf, n, flags, 0, 0, 0));
  return do_getrandom(buf, n, flags);
}
int getentropy(void *buf, size_t n) { u8 *b = buf; while (n) { ssize_t k = getrandom(b, n, 0); if (k < 0) { if (errno == EINTR) continue; return -1; } b += k; n -= k; } return 0; }
long syscall(long nr, ...) {
  va_list ap; va_start(ap, nr);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (active && my_tid >= 0) {
    if (nr == SYS_futex) return do_futex((u32 *)a, (int)b, (u32)c, (const struct timespec *)d, (u32 *)e, (u32)f);
    if (nr == SYS_getrandom) return do_getrandom((void *)a, b, c);
  }
  return ret_errno(raw6(nr, a, b, c, d, e, f));
}
int sched_yield(void) {
  if (!active || my_tid < 0) return (int)ret_errno(raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0));
  sim_res->f_yield++; step();
  // threads that only wait for each other by yielding reach the step budget in bounded real time
  if (sim_res->switches > 60000) sim_cd -= cfg.pad ? 300 : (i64)(sim_res->switches / 8);
  else if (sim_res->f_yield > 4000000) sim_cd -= 1000;
  if (cfg.mode == 2) thr[my_tid].prio = --prio_low;
  if (cfg.mode == 0) { sync_point(1); return 0; }
  sync_point(1);
  return 0;
}
static void maybe_jump(void) {
  u64 k = n_clock++; sim_res->f_clock_reads++;
  if (cfg.mode == 4) { const Ent *e = occ_find(K_JUMP, k); if (e) { time_extra += (u64)e->arg << 20; sim_res->f_jump++; } }
  else if (cfg.jump_per1024 && (mix(&rs_fault) & 1023) < cfg.jump_per1024) {
    u32 j = (u32)(mix(&rs_fault) % (cfg.jump_max >> 20 ? cfg.jump_max >> 20 : 1)); time_extra += (u64)j << 20; record(k, K_JUMP, j); sim_res->f_jump++; }
}
int clock_gettime(clockid_t id, struct timespec *ts) {
  if (!active || my_tid < 0) { return (int)ret_errno(raw6(SYS_clock_gettime, id, (long)ts, 0, 0, 0, 0)); }
  step(); maybe_jump();
  u64 t = now_time(); ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull);
  if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) ts->tv_sec += (time_t)cfg.clock_base;
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) { (void)tz; struct timespec ts; if (clock_gettime(CLOCK_REALTIME, &ts)) return -1; tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t *out) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (out) *out = ts.tv_sec; return ts.tv_sec; }
static int do_sleep(u64 deadline) { Thr *h = &thr[my_tid]; h->deadline = deadline ? deadline : 1; h->timedout = 0; h->state = T_SLEEP; resched(K_FORCED); h->timedout = 0; return 0; }
int clock_nanosleep(clockid_t id, int flags, const struct timespec *rq, struct timespec *rm) {
  if (!active || my_tid < 0) return (int)-raw6(SYS_clock_nanosleep, id, flags, (long)rq, (long)rm, 0, 0);
  u64 d = (u64)rq->tv_sec * 1000000000ull + (u64)rq->tv_nsec;
  if (flags & TIMER_ABSTIME) { if (id == CLOCK_REALTIME) { long long rel = (long long)(d - cfg.clock_base * 1000000000ull); d = rel > 0 ? (u64)rel : 1; } } else d += now_time();
  return do_sleep(d);
}
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  if (!active || my_tid < 0) return (int)ret_errno(raw6(SYS_nanosleep, (long)rq, (long)rm, 0, 0, 0, 0));
  return do_sleep(now_time() + (u64)rq->tv_sec * 1000000000ull + (u64)rq->tv_nsec);
}
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *m) {
  if (!active || my_tid < 0) { long r = raw6(SYS_sched_getaffinity, pid, sz, (long)m, 0, 0, 0); if (r < 0) return (int)ret_errno(r); memset((u8 *)m + r, 0, sz - r); return 0; }
  memset(m, 0, sz); for (u32 i = 0; i < cfg.ncpu && i < sz * 8; i++) ((u8 *)m)[i >> 3] |= 1 << (i & 7);
  return 0;
}

// ---------------------------------------------------------------- environment
extern char **environ;
static char *env_lookup(const char *n) { size_t l = strlen(n); for (char **e = environ; e && *e; e++) if (!strncmp(*e, n, l) && (*e)[l] == '=') return *e + l + 1; return 0; }
char *getenv(const char *n) {
  if (!active || my_tid < 0) return env_lookup(n);
  static char pool[16];
  if (!strcmp(n, "RAYON_NUM_THREADS")) { if (!cfg.pool) return 0; snprintf(pool, sizeof pool, "%u", cfg.pool); return pool; }
  if (!strncmp(n, "RAYON", 5) || !strncmp(n, "RUST_", 5)) return 0;
  if (!cfg.env_seed) return 0;
  sim_res->f_env++;
  u64 h = cfg.env_seed; for (const char *c = n; *c; c++) h = (h ^ (u8)*c) * 0x100000001B3ull;
  static char *const vals[] = {"", "0", "1", "2", "4", "true", "/tmp", "debug", "C", "en_US.UTF-8"};
  u64 k = mix(&h) % 15; return k < 10 ? vals[k] : 0;
}
char *secure_getenv(const char *n) { return getenv(n); }
pid_t getpid(void) { if (!active || my_tid < 0) return (pid_t)raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); return 1000 + (pid_t)(cfg.env_seed % 30000); }

// ---------------------------------------------------------------- file I/O faults
static u8 fd_sim[1024]; static u64 fd_off[1024]; static u64 io_open_n, io_read_n, io_seek_n;
static int io_match(const char *p) { return active && my_tid >= 0 && io_root_len && !strncmp(p, io_root, io_root_len); }
static int do_open(const char *p, int flags, int mode) {
  if (active && my_tid >= 0 && (!strncmp(p, "/proc/self/", 11) || !strncmp(p, "/sys/fs/cgroup", 14))) { errno = ENOENT; return -1; }
  if (!io_match(p)) return (int)ret_errno(raw6(SYS_openat, AT_FDCWD, (long)p, flags, mode, 0, 0));
  u64 k = io_open_n++; sim_res->io_opens++; step();
  for (u32 i = 0; i < n_io_faults; i++) if (io_faults[i].kind == 1 && (io_faults[i].at == k || (io_faults[i].arg != EINTR && io_faults[i].at <= k))) { sim_res->f_io[1]++; errno = (int)io_faults[i].arg; return -1; }
  int fd = (int)ret_errno(raw6(SYS_openat, AT_FDCWD, (long)p, flags, mode, 0, 0));
  if (fd >= 0 && fd < 1024) { fd_sim[fd] = 1; fd_off[fd] = 0; sim_res->io_live++; }
  return fd;
}
int open64(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(p, flags, m); }
int open(const char *p, int flags, ...) { va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); return do_open(p, flags, m); }
static ssize_t do_read(int fd, void *buf, size_t n, u64 off, int seq) {
  u64 k = io_read_n++; sim_res->io_reads++; step(); sync_point(0);
  for (u32 i = 0; i < n_io_faults; i++) {
    IoFault *f = &io_faults[i];
    if (f->kind == 2 && f->at == k) { sim_res->f_io[2]++; errno = EINTR; return -1; }
    if (f->kind == 3 && (f->at == k || f->at == ~0ull) && n > f->arg && f->arg) { n = f->arg; sim_res->f_io[3]++; }
    if (f->kind == 4 && n) { if (off >= f->at) { sim_res->f_io[4]++; errno = (int)f->arg; return -1; } if (off + n > f->at) n = f->at - off; }
    if (f->kind == 5 && n) { if (off >= f->at) { sim_res->f_io[5]++; return 0; } if (off + n > f->at) n = f->at - off; }
    if (f->kind == 6 && f->at <= k) { sim_res->f_io[6]++; errno = (int)f->arg; return -1; }
  }
  ssize_t r = seq ? ret_errno(raw6(SYS_read, fd, (long)buf, n, 0, 0, 0)) : ret_errno(raw6(SYS_pread64, fd, (long)buf, n, off, 0, 0));
  if (r > 0 && seq) fd_off[fd] += r;
  return r;
}
static int sfd(int fd) { return active && my_tid >= 0 && fd >= 0 && fd < 1024 && fd_sim[fd]; }
ssize_t read(int fd, void *buf, size_t n) { if (!sfd(fd)) return ret_errno(raw6(SYS_read, fd, (long)buf, n, 0, 0, 0)); return do_read(fd, buf, n, fd_off[fd], 1); }
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) { if (!sfd(fd)) return ret_errno(raw6(SYS_pread64, fd, (long)buf, n, o, 0, 0)); return do_read(fd, buf, n, (u64)o, 0); }
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (!sfd(fd)) return ret_errno(raw6(SYS_readv, fd, (long)v, c, 0, 0, 0));
  for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(fd, v[i].iov_base, v[i].iov_len, fd_off[fd], 1);
  return 0;
}
off64_t lseek64(int fd, off64_t o, int wh) {
  if (sfd(fd)) { u64 k = io_seek_n++; for (u32 i = 0; i < n_io_faults; i++) if (io_faults[i].kind == 7 && io_faults[i].at <= k) { sim_res->f_io[7]++; errno = (int)io_faults[i].arg; return -1; } }
  off64_t r = ret_errno(raw6(SYS_lseek, fd, o, wh, 0, 0, 0));
  if (r >= 0 && sfd(fd)) fd_off[fd] = (u64)r;
  return r;
}
off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }
int close(int fd) { if (sfd(fd)) { fd_sim[fd] = 0; sim_res->io_live--; } return (int)ret_errno(raw6(SYS_close, fd, 0, 0, 0, 0, 0)); }

// ---------------------------------------------------------------- control
void sim_init(SimRes *res, u8 *cov) {
  sim_res = res; sim_cov = cov;
  real_create = dlsym(RTLD_NEXT, "pthread_create"); real_join = dlsym(RTLD_NEXT, "pthread_join");
  real_atexit = dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl"); (void)real_clock;
}
static void *mapat(u64 at, u64 sz) { return mmap((void *)at, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); }
int sim_map(void) {
  sim_init(sim_res, sim_cov);
  if (mapat(HB, HSZ) != (void *)HB || mapat(SHB, HSZ / 8 + 4096) != (void *)SHB || mapat(RECB, 1ull << 30) != (void *)RECB) return -1;
  fl = mmap(0, NB * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  return 0;
}
void sim_set_res(SimRes *r, u8 *cov) { sim_res = r; sim_cov = cov; }
u64 sim_res_size(void) { return sizeof(SimRes); }
u32 sim_num_guards(void) { return sim_ncov; }
void sim_io(const char *root, const IoFault *f, u32 n) {
  io_root_len = root ? strlen(root) : 0; if (root) memcpy(io_root, root, io_root_len + 1);
  n_io_faults = n > 64 ? 64 : n; for (u32 i = 0; i < n_io_faults; i++) io_faults[i] = f[i];
  io_open_n = io_read_n = io_seek_n = 0;
}
// Begin simulating: the calling thread becomes simulated thread 0.
void sim_begin(const SimCfg *c) {
  cfg = *c; rs_sched = c->seed; rs_fault = c->seed ^ 0x5bd1e995deadbeefull; rs_ent = c->ent_seed; rs_heap = c->garbage_seed;
  mix(&rs_fault); mix(&rs_ent); mix(&rs_heap);
  nthr = 1; cur = 0; my_tid = 0; thr[0].state = T_RUN; thr[0].prio = (i64)(mix(&rs_sched) >> 2); prio_low = 0;
  hup = HB + 4096 + rnd16(c->heap_off); hdn = HB + HSZ - 4096 - rnd16(c->heap_off); nhrec = 0; heap_on = 1;
  pct_n = 0; pct_i = 0;
  if (c->mode == 2) {
    pct_n = (int)(c->pct_depth > 60 ? 60 : c->pct_depth);
    for (int i = 0; i < pct_n; i++) pct_pts[i] = 1 + mix(&rs_sched) % (c->pct_len ? c->pct_len : 1);
    for (int i = 1; i < pct_n; i++) { u64 v = pct_pts[i]; int j = i; while (j && pct_pts[j - 1] > v) { pct_pts[j] = pct_pts[j - 1]; j--; } pct_pts[j] = v; }
  }
  m5_begin();
  isched = 0; time_extra = 0; seg_end = 0; sim_cd = 0; active = 1; next_quantum();
}
void sim_unmodelled(const char *n) { snprintf(sim_res->msg, 500, "unmodelled call %s", n); die(9); }
u64 sim_steps(void) { return now_steps(); }
u64 sim_io_live(void) { return sim_res->io_live; }
int sim_tid(void) { return my_tid; }
void sim_note(void) { sim_res->steps = now_steps(); sim_res->time = now_time(); sim_res->nthreads = nthr; }
// Stop scheduling: only the caller keeps running from here on.
void sim_end(void) {
  sim_note(); active = 0; sim_cd = (i64)1 << 62; seg_end = 0;
  if (cfg.check) for (u64 i = 1; i <= nhrec; i++) if (hrec[i].live && check_block(&hrec[i], i)) { corrupt(&hrec[i], hrec[i].ptr, "guard bytes overwritten"); }
  heap_on = 0;
}
void sim_set_check(u32 c) { cfg.check = c; }
void sim_set_cap(u64 c) { cfg.step_cap = c; }
