// Scenarios run by the explorer in rt.c.  They only use the public interfaces
// of thread.h, hash.h and ident.h.
#include "util.h"
#include "thread.h"
#include "hash.h"
#include "ident.h"
#include <stdlib.h>
#include <string.h>

void mc_fail(const char *fmt, ...);
void mc_nosched(bool on);
void mc_run_atexit(void);
int mc_op_begin(int type, int key, int a, int b);
void mc_op_end(int i, int ret);
void mc_check_lin(void);
void mc_point(void *);
extern int mc_ncpu;

#define MAXN 8
static nvc_thread_t *thr[MAXN];

static void begin(int ncpu)
{
   mc_nosched(true);
   mc_ncpu = ncpu;
   thread_init();
   mc_nosched(false);
}

static void finish(void)
{
   mc_run_atexit();
}

// ---------------------------------------------------------------- locks
static nvc_lock_t lk[2];
static int counter[2], inside[2], nlocks, niter;

static void *lock_thread(void *arg)
{
   int id = (intptr_t)arg;
   for (int i = 0; i < niter; i++) {
      int l = (id + i) % nlocks;
      nvc_lock(&lk[l]);
      if (inside[l]++ != 0) mc_fail("two threads hold the lock at the same time");
      counter[l]++;
      mc_point(&lk[l]);
      if (--inside[l] != 0) mc_fail("two threads hold the lock at the same time");
      nvc_unlock(&lk[l]);
   }
   return NULL;
}

// arg = threads * 100 + locks * 10 + iterations
void sc_lock(int arg)
{
   int n = arg / 100;
   nlocks = (arg / 10) % 10; niter = arg % 10;
   begin(4);
   mc_nosched(true);
   for (int i = 1; i < n; i++) thr[i] = thread_create(lock_thread, (void *)(intptr_t)i, "t%d", i);
   mc_nosched(false);
   lock_thread(0);
   for (int i = 1; i < n; i++) thread_join(thr[i]);
   if (counter[0] + (nlocks > 1 ? counter[1] : 0) != n * niter) mc_fail("lost an update made with the lock held");
   finish();
}

static void *scoped_thread(void *arg)
{
   for (int i = 0; i < niter; i++) {
      SCOPED_LOCK(lk[0]);
      counter[0]++;
      SCOPED_LOCK(lk[1]);
      counter[1]++;
   }
   return NULL;
}

// Nested locks; arg = threads * 10 + iterations
void sc_nested(int arg)
{
   int n = arg / 10;
   niter = arg % 10;
   begin(4);
   mc_nosched(true);
   for (int i = 1; i < n; i++) thr[i] = thread_create(scoped_thread, NULL, "t%d", i);
   mc_nosched(false);
   scoped_thread(0);
   for (int i = 1; i < n; i++) thread_join(thr[i]);
   if (counter[0] != n * niter || counter[1] != n * niter) mc_fail("lost an update made with the lock held");
   finish();
}

// ---------------------------------------------------------------- barrier
static barrier_t *bar;
static int bval[MAXN][4], bn;

static void *barrier_thread(void *arg)
{
   int id = (intptr_t)arg;
   for (int r = 0; r < niter; r++) {
      bval[id][r] = 100 * r + id + 1;
      barrier_wait(bar);
      for (int j = 0; j < bn; j++)
         if (bval[j][r] != 100 * r + j + 1) mc_fail("thread passed the barrier before the others reached it");
   }
   return NULL;
}

void sc_barrier(int arg)
{
   bn = arg / 10; niter = arg % 10;
   begin(4);
   mc_nosched(true);
   bar = barrier_new(bn);
   for (int i = 1; i < bn; i++) thr[i] = thread_create(barrier_thread, (void *)(intptr_t)i, "t%d", i);
   mc_nosched(false);
   barrier_thread(0);
   for (int i = 1; i < bn; i++) thread_join(thr[i]);
   barrier_free(bar);
   finish();
}

// ---------------------------------------------------------------- stop the world
static int stopped, ticks[MAXN], seen_cb[64], quit, started[MAXN];

static void *ticker(void *arg)
{
   int id = (intptr_t)arg;
   relaxed_store(&started[id], 1);
   for (int i = 0; i < niter; i++) {
      if (relaxed_load(&stopped)) mc_fail("a thread runs while the world is stopped");
      relaxed_add(&ticks[id], 1);
      if (nlocks) {
         nvc_lock(&lk[0]);
         counter[0]++;
         nvc_unlock(&lk[0]);
      }
   }
   return NULL;
}

static void stop_cb(int id, struct cpu_state *cpu, void *arg)
{
   if (arg != &quit) mc_fail("wrong argument passed to the stop_world callback");
   seen_cb[id]++;
}

// arg = threads * 100 + with-lock * 10 + iterations; a second stop with threads >= 10
void sc_stop(int arg)
{
   int n = arg / 100; 
   nlocks = (arg / 10) % 10; niter = arg % 10;
   begin(4);
   mc_nosched(true);
   for (int i = 1; i < n; i++) thr[i] = thread_create(ticker, (void *)(intptr_t)i, "t%d", i);
   mc_nosched(false);
   for (int round = 0; round < 2; round++) {
      memset(seen_cb, 0, sizeof(seen_cb));
      stop_world(stop_cb, &quit);
      atomic_store(&stopped, 1);
      int snap[MAXN];
      for (int i = 1; i < n; i++) {
         snap[i] = relaxed_load(&ticks[i]);
         if (seen_cb[i] > 1 || (get_thread(i) != NULL && relaxed_load(&started[i]) && seen_cb[i] != 1)) mc_fail("stop_world callback was called %d times for a thread", seen_cb[i]);
      }
      if (seen_cb[0] != 1) mc_fail("stop_world callback was not called once for the calling thread");
      for (int i = 1; i < n; i++)
         if (snap[i] != relaxed_load(&ticks[i])) mc_fail("a thread runs while the world is stopped");
      atomic_store(&stopped, 0);
      start_world();
   }
   for (int i = 1; i < n; i++) thread_join(thr[i]);
   if (nlocks && counter[0] != (n - 1) * niter) mc_fail("lost an update");
   finish();
}

// ---------------------------------------------------------------- work queues
static int ran[64], scanned[64];

static void task(void *context, void *arg)
{
   if (context != &ran) mc_fail("task run with the wrong context");
   int i = (intptr_t)arg;
   mc_point(&ran[i]);
   ran[i]++;
}

static void scan_cb(void *context, void *arg, void *user)
{
   scanned[(intptr_t)arg]++;
}

// arg = cpus * 100 + rounds * 10 + tasks
void sc_workq(int arg)
{
   int ncpu = arg / 100, rounds = (arg / 10) % 10, n = arg % 10;
   begin(ncpu);
   workq_t *wq = workq_new(&ran);
   for (int r = 0; r < rounds; r++) {
      mc_nosched(true);
      for (int i = 0; i < n; i++) workq_do(wq, task, (void *)(intptr_t)i);
      mc_nosched(false);
      workq_start(wq);
      workq_drain(wq);
      for (int i = 0; i < n; i++)
         if (ran[i] != r + 1) mc_fail("task ran %d times instead of once by the end of the drain", ran[i] - r);
   }
   workq_free(wq);
   finish();
}

static workq_t *gwq;
static int per;
static void *producer(void *arg)
{
   int id = (intptr_t)arg;
   for (int i = 0; i < per; i++) workq_do(gwq, task, (void *)(intptr_t)(id * per + i));
   return NULL;
}

// Tasks queued by several threads; arg = threads * 10 + tasks for each
void sc_multi(int arg)
{
   int n = arg / 10; per = arg % 10;
   begin(2);
   gwq = workq_new(&ran);
   for (int r = 0; r < 2; r++) {
      for (int i = 1; i < n; i++) thr[i] = thread_create(producer, (void *)(intptr_t)i, "t%d", i);
      producer(0);
      for (int i = 1; i < n; i++) thread_join(thr[i]);
      memset(scanned, 0, sizeof(scanned));
      workq_scan(gwq, scan_cb, NULL);
      for (int i = 0; i < n * per; i++)
         if (scanned[i] != 1) mc_fail("workq_scan visited a queued task %d times", scanned[i]);
      workq_start(gwq);
      workq_drain(gwq);
      for (int i = 0; i < n * per; i++)
         if (ran[i] != r + 1) mc_fail("task ran %d times instead of once by the end of the drain", ran[i] - r);
      memset(scanned, 0, sizeof(scanned));
   }
   workq_free(gwq);
   finish();
}

// arg = cpus * 100 + rounds * 10 + tasks
void sc_async(int arg)
{
   int ncpu = arg / 100, rounds = (arg / 10) % 10, n = arg % 10;
   begin(ncpu);
   for (int r = 0; r < rounds; r++) {
      for (int i = 0; i < n; i++) async_do(task, &ran, (void *)(intptr_t)i);
      async_barrier();
      for (int i = 0; i < n; i++)
         if (atomic_load(&ran[i]) != r + 1) mc_fail("task ran %d times instead of once by the barrier", ran[i] - r);
   }
   finish();
}

static void serial_task(void *context, void *arg)
{
   static int next;
   if (next++ % 4 != (intptr_t)arg) mc_fail("tasks of a serial work queue run out of order");
}

// Not thread safe queue: in order on the calling thread
void sc_serial(int arg)
{
   begin(arg);
   workq_t *wq = workq_new(&ran);
   workq_not_thread_safe(wq);
   for (int r = 0; r < 2; r++) {
      for (int i = 0; i < 4; i++) workq_do(wq, serial_task, (void *)(intptr_t)i);
      workq_start(wq);
      workq_drain(wq);
   }
   workq_free(wq);
   finish();
}

// Work queue and asynchronous tasks together
void sc_mixed(int arg)
{
   int n = arg % 10;
   begin(arg / 10);
   workq_t *wq = workq_new(&ran);
   for (int i = 0; i < n; i++) workq_do(wq, task, (void *)(intptr_t)i);
   for (int i = 0; i < n; i++) async_do(task, &ran, (void *)(intptr_t)(n + i));
   workq_start(wq);
   workq_drain(wq);
   for (int i = 0; i < n; i++)
      if (ran[i] != 1) mc_fail("task ran %d times instead of once by the end of the drain", ran[i]);
   async_barrier();
   for (int i = 0; i < n; i++)
      if (atomic_load(&ran[n + i]) != 1) mc_fail("asynchronous task ran %d times by the barrier", ran[n + i]);
   workq_free(wq);
   finish();
}

// ---------------------------------------------------------------- chash
static chash_t *ch;
static char *keys;
#define KEY(i) ((void *)(keys + 64 * (i)))
#define VAL(v) ((void *)(intptr_t)(v))

typedef struct { int type, key, a, b; } hop_t;
static const hop_t *prog[4];

static void *chash_thread(void *arg)
{
   for (const hop_t *p = prog[(intptr_t)arg]; p->type >= 0; p++) {
      int h = mc_op_begin(p->type, p->key, p->a, p->b), ret = 0;
      switch (p->type) {
      case 0: chash_put(ch, KEY(p->key), VAL(p->a)); break;
      case 1: ret = (intptr_t)chash_get(ch, KEY(p->key)); break;
      case 2: ret = (intptr_t)chash_cas(ch, KEY(p->key), VAL(p->a), VAL(p->b)); break;
      }
      mc_op_end(h, ret);
   }
   return NULL;
}

#define P(k, v)    { 0, k, v, 0 }
#define G(k)       { 1, k, 0, 0 }
#define C(k, a, b) { 2, k, a, b }
#define E          { -1 }
static const hop_t progs[][3][5] = {
   /* 0 */ { { P(0, 1), G(1), E }, { P(1, 2), G(0), E }, { E } },
   /* 1 */ { { P(0, 1), G(0), E }, { P(0, 2), G(0), E }, { E } },
   /* 2 */ { { P(1, 1), P(2, 1), E }, { P(0, 2), G(0), E }, { E } },
   /* 3 */ { { C(0, 0, 1), G(0), E }, { C(0, 0, 2), G(0), E }, { E } },
   /* 4 */ { { P(0, 1), E }, { P(0, 2), E }, { G(0), G(0), E } },
   /* 5 */ { { P(0, 1), P(3, 4), E }, { P(1, 2), G(0), E }, { P(2, 3), E } },
   /* 6 */ { { P(3, 1), P(4, 1), E }, { P(0, 2), P(0, 3), E }, { G(0), G(0), E } },
   /* 7 */ { { P(0, 1), P(0, 2), E }, { G(0), G(0), E }, { P(3, 1), E } },
   /* 8 */ { { P(0, 1), P(1, 2), P(2, 3), E }, { P(3, 4), P(4, 5), P(5, 6), E }, { E } },
   /* 9 */ { { C(0, 0, 1), E }, { C(0, 0, 2), E }, { C(0, 0, 3), E } },
   /* 10 */ { { C(0, 0, 1), C(1, 0, 1), E }, { C(2, 0, 2), C(3, 0, 1), E }, { E } },
   /* 11 */ { { C(0, 0, 1), C(0, 1, 5), E }, { P(0, 2), G(0), E }, { E } },
   /* 12 */ { { P(3, 1), E }, { C(0, 7, 2), G(0), E }, { G(0), E } },
};
#define NKEYS 10

static int iter_count[NKEYS], iter_val[NKEYS];
static void iter_cb(const void *key, void *value)
{
   int k = ((char *)key - keys) / 64;
   iter_count[k]++;
   iter_val[k] = (intptr_t)value;
}

// arg = program * 100 + initial size * 10 + number of preset keys (from key 6 on, or key 0 when 9)
void sc_chash(int arg)
{
   int p = arg / 100, size = (arg / 10) % 10, preset = arg % 10, n = 0;
   begin(4);
   mc_nosched(true);
   keys = xcalloc(64 * NKEYS);
   ch = chash_new(size);
   if (preset == 9) {
      chash_put(ch, KEY(0), VAL(7));
      int h = mc_op_begin(0, 0, 7, 0); mc_op_end(h, 0);
   }
   else
      for (int i = 0; i < preset; i++) chash_put(ch, KEY(6 + i), VAL(50 + i));
   for (int i = 0; i < 3; i++) { prog[i] = progs[p][i]; if (prog[i]->type >= 0) n++; }
   for (int i = 1; i < n; i++) thr[i] = thread_create(chash_thread, VAL(i), "t%d", i);
   mc_nosched(false);
   chash_thread(0);
   for (int i = 1; i < n; i++) thread_join(thr[i]);
   mc_nosched(true);
   // Final reads belong to the history
   for (int i = 0; i < 6; i++) {
      bool used = false;
      for (int t = 0; t < n; t++) for (const hop_t *q = progs[p][t]; q->type >= 0; q++) used |= q->key == i;
      if (!used) continue;
      int h = mc_op_begin(1, i, 0, 0);
      mc_op_end(h, (intptr_t)chash_get(ch, KEY(i)));
   }
   mc_check_lin();
   if (preset < 9)
      for (int i = 0; i < preset; i++)
         if (chash_get(ch, KEY(6 + i)) != VAL(50 + i)) mc_fail("an entry present before was lost or changed");
   chash_iter(ch, iter_cb);
   for (int i = 0; i < NKEYS; i++) {
      intptr_t v = (intptr_t)chash_get(ch, KEY(i));
      if (v != 0 && (iter_count[i] != 1 || iter_val[i] != v)) mc_fail("chash_iter visits an entry %d times", iter_count[i]);
   }
   chash_free(ch);
   mc_nosched(false);
   finish();
}

// ---------------------------------------------------------------- identifiers
static const char *names[3][6];
static ident_t idents[3][6];

static void *ident_thread(void *arg)
{
   int t = (intptr_t)arg;
   for (int i = 0; i < 6 && names[t][i]; i++) {
      switch (i & 1) {
      case 0: idents[t][i] = ident_new(names[t][i]); break;
      case 1: idents[t][i] = ident_new_n(names[t][i], strlen(names[t][i])); break;
      }
      if (!icmp(idents[t][i], names[t][i])) mc_fail("identifier has the wrong text");
   }
   return NULL;
}

// arg = scenario * 10 + preset identifiers
void sc_ident(int arg)
{
   static const char *sets[][3][6] = {
      { { "a" }, { "a" } },
      { { "a", "b" }, { "b", "a" } },
      { { "a", "b", "c" }, { "c", "d", "a" } },
      { { "a", "b" }, { "b", "a" }, { "a", "c" } },
      { { "aa", "bb", "cc", "dd" }, { "dd", "ee", "aa", "ff" } },
   };
   int s = arg / 10, preset = arg % 10, n = 0;
   begin(4);
   mc_nosched(true);
   char buf[8] = "p0";
   ident_t pre[10];
   for (int i = 0; i < preset; i++) { buf[1] = '0' + i; pre[i] = ident_new(buf); }
   for (int i = 0; i < 3; i++) { memcpy(names[i], sets[s][i], sizeof(names[i])); if (names[i][0]) n++; }
   for (int i = 1; i < n; i++) thr[i] = thread_create(ident_thread, VAL(i), "t%d", i);
   mc_nosched(false);
   ident_thread(0);
   for (int i = 1; i < n; i++) thread_join(thr[i]);
   mc_nosched(true);
   for (int t = 0; t < n; t++)
      for (int i = 0; i < 6 && names[t][i]; i++) {
         if (ident_new(names[t][i]) != idents[t][i]) mc_fail("the same text yields two different identifiers");
         for (int u = 0; u < n; u++)
            for (int j = 0; j < 6 && names[u][j]; j++)
               if ((strcmp(names[t][i], names[u][j]) == 0) != (idents[t][i] == idents[u][j]))
                  mc_fail("identifiers are equal but the texts differ or the other way round");
      }
   for (int i = 0; i < preset; i++) {
      buf[1] = '0' + i;
      if (ident_new(buf) != pre[i]) mc_fail("an existing identifier was lost");
   }
   mc_nosched(false);
   finish();
}
