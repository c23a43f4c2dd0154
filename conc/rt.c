// Controlled scheduler for model checking nvc's concurrent C code.
//
// The code under test is compiled with clang -fsanitize=thread but linked with
// the runtime below instead of TSan's: every atomic operation and every pthread,
// semaphore and signal call is a scheduling point.  Threads are coroutines, and
// the explorer runs the scenario once for every schedule with at most a given
// number of preemptions (and delayed stores), by depth-first search over the
// sequence of choices.  Plain accesses are checked for data races (vector clocks)
// and for use after free.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXT      8
#define STACKSZ   (128 * 1024)
#define ARENA     0x700000000000ull
#define ARENASZ   (16u << 20)
#define MAXSTEPS  60000
#define MAXCH     65536

typedef struct { uint32_t c[MAXT]; } vc_t;

typedef struct {
   void     *addr;
   int       size;
   uint64_t  val;
   vc_t      vc;
   bool      release;
} sbent_t;

typedef struct co {
   void     *sp;
   char     *stack;
   int       id;
   bool      live, done, joined, yielded;
   bool    (*pred)(void *);
   void     *pred_arg;
   void   *(*fn)(void *);
   void     *arg, *ret;
   vc_t      vc;
   uint64_t  sigpend, sigmask;
   int       insig;
   sbent_t   sb[8];
   int       nsb;
   // Spin detection
   struct { void *pc, *addr; uint64_t val; } seen[16];
   int       nseen;
   struct { void *key, *mem; } tls[32];
   int       ntls;
   char      last[96];
   int       err;
} co_t;

static co_t   cos[MAXT];
static int    nco, cur;
static char  *stacks;
static void  *sched_sp;
static bool   nosched, failed;
static char   failtext[1024];
static long   nsteps;
static int    preempts_used, weak_used;
static int    bound_preempt = 2, bound_weak = 0;

// ---------------------------------------------------------------- choices
typedef struct { uint8_t n, cur; uint8_t kind; } choice_t;
static choice_t ch[MAXCH];
static int nch, pos;
static int worker, nworkers = 1;
static char trace[1 << 16];
static int  ntrace;
static bool tracing;

static void die_run(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
static void co_exit_to_sched(void) __attribute__((noreturn));

static int choose(int n)
{
   if (n <= 1) return 0;
   if (pos < nch) {
      if (ch[pos].n != n) {
         fprintf(stderr, "ERROR: nondeterministic replay (%d alternatives, had %d) at %d\n", n, ch[pos].n, pos);
         _exit(2);
      }
      return ch[pos++].cur;
   }
   if (nch == MAXCH) die_run("too many choices");
   ch[nch].n = n; ch[nch].cur = 0; nch++; pos++;
   return 0;
}

// ---------------------------------------------------------------- coroutines
void co_switch(void **from, void *to);
__asm__(
   ".text\n.globl co_switch\nco_switch:\n"
   " pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
   " movq %rsp, (%rdi)\n movq %rsi, %rsp\n"
   " popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");

static void tr(const char *what, void *addr, void *pc);

static void co_exit_to_sched(void)
{
   void *dummy;
   co_switch(&dummy, sched_sp);
   __builtin_trap();
}

static void die_run(const char *fmt, ...)
{
   if (!failed) {
      va_list ap;
      va_start(ap, fmt);
      vsnprintf(failtext, sizeof(failtext), fmt, ap);
      va_end(ap);
      failed = true;
   }
   co_exit_to_sched();
}

void mc_fail(const char *fmt, ...)
{
   char buf[512];
   va_list ap;
   va_start(ap, fmt);
   vsnprintf(buf, sizeof(buf), fmt, ap);
   va_end(ap);
   die_run("%s", buf);
}

static bool sig_deliverable(co_t *c)
{
   return (c->sigpend & ~c->sigmask) != 0;
}

static bool enabled(co_t *c)
{
   if (!c->live || c->done) return false;
   if (c->pred && !c->pred(c->pred_arg) && !sig_deliverable(c)) return false;
   return true;
}

static void flush_sb(co_t *c);
static void deliver_signals(co_t *c);

static void switch_to(int t)
{
   if (t == cur) return;
   int from = cur;
   cur = t;
   co_switch(&cos[from].sp, cos[t].sp);
}

// Pick who runs next; called in the context of the current coroutine.
static void reschedule(bool must)
{
   co_t *me = &cos[cur];
   int cand[MAXT], n = 0;
   bool me_ok = !must && !me->done && enabled(me) && !me->yielded;
   if (me_ok) cand[n++] = cur;
   if (!me_ok || preempts_used < bound_preempt) {
      for (int i = 0; i < nco; i++)
         if (i != cur && enabled(&cos[i]) && !cos[i].yielded) cand[n++] = i;
   }
   if (n == 0) {
      // Only waiting threads are left: let the next of them try again
      for (int k = 1; k <= nco && n == 0; k++) {
         int i = (cur + k) % nco;
         if (enabled(&cos[i]) && (i != cur || !me->done)) cand[n++] = i;
      }
      for (int i = 0; i < nco; i++) cos[i].yielded = false;
   }
   if (n == 0) {
      char buf[700]; int o = 0;
      for (int i = 0; i < nco; i++)
         if (!cos[i].done)
            o += snprintf(buf + o, sizeof(buf) - o, " thread %d blocked in %s;", i, cos[i].last);
      die_run("deadlock:%s", buf);
   }
   int k = choose(n);
   int t = cand[k];
   if (me_ok && t != cur) preempts_used++;
   switch_to(t);
}

static void step(const char *what, void *addr, void *pc)
{
   if (++nsteps > MAXSTEPS) die_run("livelock: no progress after %d steps (last %s)", MAXSTEPS, what);
   co_t *me = &cos[cur];
   if (nosched) return;
   if (tracing) snprintf(me->last, sizeof(me->last), "%s", what);
   else { strncpy(me->last, what, sizeof(me->last) - 1); }
   reschedule(false);
   me = &cos[cur];
   deliver_signals(me);
   if (tracing) tr(what, addr, pc);
}

static void progress(void)
{
   // A visible effect: threads that were spinning may now make progress
   for (int i = 0; i < nco; i++)
      if (i != cur) cos[i].yielded = false;
}

static void do_yield(const char *what)
{
   co_t *me = &cos[cur];
   if (++nsteps > MAXSTEPS) die_run("livelock: no progress after %d steps (last %s)", MAXSTEPS, what);
   if (nosched) return;
   flush_sb(me);
   me->yielded = true;
   me->nseen = 0;
   reschedule(false);
   me = &cos[cur];
   me->yielded = false;
   deliver_signals(me);
}

static void block_until(bool (*pred)(void *), void *arg, const char *what)
{
   co_t *me = &cos[cur];
   flush_sb(me);
   me->yielded = false;
   me->nseen = 0;
   for (;;) {
      deliver_signals(me);
      if (pred(arg)) return;
      if (nosched) { nosched = false; }
      strncpy(me->last, what, sizeof(me->last) - 1);
      me->pred = pred; me->pred_arg = arg;
      reschedule(true);
      me->pred = NULL;
      if (++nsteps > MAXSTEPS) die_run("livelock in %s", what);
   }
}

static void tr(const char *what, void *addr, void *pc)
{
   if (ntrace < (int)sizeof(trace) - 200) {
      Dl_info di;
      const char *sym = "?"; long off = 0;
      if (pc && dladdr(pc, &di)) {
         sym = di.dli_sname ? di.dli_sname : "?";
         off = (char *)pc - (char *)di.dli_fbase;
      }
      ntrace += snprintf(trace + ntrace, 200, "  t%d %-14s %p %s (+0x%lx)\n", cur, what, addr, sym, off);
   }
}

// ---------------------------------------------------------------- clocks
static void vc_join(vc_t *a, const vc_t *b)
{
   for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i];
}

typedef struct { void *addr; vc_t vc; long gen; } sync_t;
#define NSYNC 4096
static sync_t syncs[NSYNC];
static long gen;

static vc_t *sync_for(void *addr)
{
   unsigned h = (unsigned)(((uintptr_t)addr * 0x9E3779B97F4A7C15ull) >> 48) & (NSYNC - 1);
   for (;; h = (h + 1) & (NSYNC - 1)) {
      if (syncs[h].gen != gen) {
         syncs[h].gen = gen; syncs[h].addr = addr; memset(&syncs[h].vc, 0, sizeof(vc_t));
         return &syncs[h].vc;
      }
      if (syncs[h].addr == addr) return &syncs[h].vc;
   }
}

static void acquire(void *addr) { vc_join(&cos[cur].vc, sync_for(addr)); }
static void release(void *addr)
{
   vc_join(sync_for(addr), &cos[cur].vc);
   cos[cur].vc.c[cur]++;
}

typedef struct {
   uintptr_t g; long gen;
   uint32_t wclk; uint8_t wtid, wmask; void *wpc;
   uint32_t rclk[MAXT]; uint8_t rmask[MAXT]; void *rpc[MAXT];
} shad_t;
#define NSHAD (1 << 16)
static shad_t *shads;
static int nshad;

static shad_t *shad_for(uintptr_t g)
{
   unsigned h = (unsigned)((g * 0x9E3779B97F4A7C15ull) >> 44) & (NSHAD - 1);
   for (;; h = (h + 1) & (NSHAD - 1)) {
      shad_t *s = &shads[h];
      if (s->gen != gen) {
         if (++nshad > NSHAD / 2) return NULL;
         memset(s, 0, sizeof(*s));
         s->gen = gen; s->g = g;
         return s;
      }
      if (s->g == g) return s;
   }
}

static const char *pcname(void *pc)
{
   static char b[4][160]; static int k;
   char *o = b[k++ & 3];
   Dl_info di;
   if (pc && dladdr(pc, &di) && di.dli_sname)
      snprintf(o, 160, "%s+0x%lx", di.dli_sname, (long)((char *)pc - (char *)di.dli_saddr));
   else if (pc && dladdr(pc, &di))
      snprintf(o, 160, "so+0x%lx", (long)((char *)pc - (char *)di.dli_fbase));
   else snprintf(o, 160, "%p", pc);
   return o;
}

static uint8_t *freed;   // one byte per 16 bytes of arena
static size_t arena_used;

static void check_free(uintptr_t a, size_t n, void *pc)
{
   if (a >= ARENA && a < ARENA + ARENASZ) {
      if (a + n > ARENA + arena_used) die_run("heap access out of bounds at %s", pcname(pc));
      for (uintptr_t x = a & ~15ull; x < a + n; x += 16)
         if (freed[(x - ARENA) >> 4]) die_run(freed[(x - ARENA) >> 4] == 1 ?
            "use after free at %s" : "heap access out of bounds at %s", pcname(pc));
   }
}

static void access_plain(void *p, size_t n, bool write, void *pc)
{
   uintptr_t a = (uintptr_t)p;
   co_t *me = &cos[cur];
   if (a >= (uintptr_t)stacks && a < (uintptr_t)stacks + MAXT * STACKSZ) {
      if (a >= (uintptr_t)me->stack && a < (uintptr_t)me->stack + STACKSZ) return;
   }
   check_free(a, n, pc);
   // A plain access must see the thread's own delayed stores
   for (int i = 0; i < me->nsb; i++) {
      uintptr_t b = (uintptr_t)me->sb[i].addr;
      if (a < b + me->sb[i].size && b < a + n) { flush_sb(me); break; }
   }
   for (size_t o = 0; o < n;) {
      uintptr_t g = (a + o) >> 3;
      unsigned lo = (a + o) & 7, len = 8 - lo;
      if (len > n - o) len = n - o;
      uint8_t mask = ((1u << len) - 1) << lo;
      shad_t *s = shad_for(g);
      if (!s) return;
      if ((s->wmask & mask) && s->wtid != cur && s->wclk > me->vc.c[s->wtid])
         die_run("data race: %s at %s by thread %d is not ordered with the write at %s by thread %d",
                 write ? "write" : "read", pcname(pc), cur, pcname(s->wpc), s->wtid);
      if (write) {
         for (int t = 0; t < MAXT; t++)
            if (t != cur && (s->rmask[t] & mask) && s->rclk[t] > me->vc.c[t])
               die_run("data race: write at %s by thread %d is not ordered with the read at %s by thread %d",
                       pcname(pc), cur, pcname(s->rpc[t]), t);
         if (s->wtid == cur && s->wclk == me->vc.c[cur]) s->wmask |= mask; else s->wmask = mask;
         s->wtid = cur; s->wclk = me->vc.c[cur]; s->wpc = pc;
      }
      else {
         if (s->rclk[cur] == me->vc.c[cur]) s->rmask[cur] |= mask; else s->rmask[cur] = mask;
         s->rclk[cur] = me->vc.c[cur]; s->rpc[cur] = pc;
      }
      o += len;
   }
}

// ---------------------------------------------------------------- tsan interface
#define PC __builtin_return_address(0)
#define RW(n) \
   void __tsan_read##n(void *p) { access_plain(p, n, false, PC); } \
   void __tsan_write##n(void *p) { access_plain(p, n, true, PC); } \
   void __tsan_unaligned_read##n(void *p) { access_plain(p, n, false, PC); } \
   void __tsan_unaligned_write##n(void *p) { access_plain(p, n, true, PC); } \
   void __tsan_read_write##n(void *p) { access_plain(p, n, true, PC); } \
   void __tsan_unaligned_read_write##n(void *p) { access_plain(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_read_range(void *p, size_t n) { access_plain(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access_plain(p, n, true, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{ if (n) { access_plain((void *)s, n, false, PC); access_plain(d, n, true, PC); } return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n)
{ if (n) { access_plain((void *)s, n, false, PC); access_plain(d, n, true, PC); } return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n)
{ if (n) access_plain(d, n, true, PC); return memset(d, c, n); }
int mc_memcmp(const void *a, const void *b, size_t n)
{ if (n) { access_plain((void *)a, n, false, PC); access_plain((void *)b, n, false, PC); } return memcmp(a, b, n); }

static bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }

static void raw_store(void *p, int sz, uint64_t v)
{
   switch (sz) {
   case 1: *(volatile uint8_t *)p = v; break;
   case 2: *(volatile uint16_t *)p = v; break;
   case 4: *(volatile uint32_t *)p = v; break;
   default: *(volatile uint64_t *)p = v; break;
   }
}
static uint64_t raw_load(void *p, int sz)
{
   switch (sz) {
   case 1: return *(volatile uint8_t *)p;
   case 2: return *(volatile uint16_t *)p;
   case 4: return *(volatile uint32_t *)p;
   default: return *(volatile uint64_t *)p;
   }
}

static void flush_sb(co_t *c)
{
   for (int i = 0; i < c->nsb; i++) {
      sbent_t *e = &c->sb[i];
      raw_store(e->addr, e->size, e->val);
      vc_t *s = sync_for(e->addr);
      if (e->release) vc_join(s, &e->vc);
   }
   if (c->nsb) progress();
   c->nsb = 0;
}

static void spin_check(void *pc, void *addr, uint64_t val)
{
   // The same load at the same place yields the same value with no write by
   // this thread in between: it is waiting for somebody else
   co_t *me = &cos[cur];
   for (int i = 0; i < me->nseen; i++)
      if (me->seen[i].pc == pc && me->seen[i].addr == addr && me->seen[i].val == val) {
         me->nseen = 0;
         me->yielded = true;
         return;
      }
   if (me->nseen < 16) {
      me->seen[me->nseen].pc = pc; me->seen[me->nseen].addr = addr; me->seen[me->nseen].val = val;
      me->nseen++;
   }
}

static uint64_t at_load(void *p, int sz, int mo, void *pc)
{
   check_free((uintptr_t)p, sz, pc);
   co_t *me = &cos[cur];
   step("load", p, pc);
   me = &cos[cur];
   me->yielded = false;
   uint64_t v = 0; bool fwd = false;
   for (int i = me->nsb - 1; i >= 0; i--)
      if (me->sb[i].addr == p && me->sb[i].size == sz) { v = me->sb[i].val; fwd = true; break; }
   if (!fwd) {
      v = raw_load(p, sz);
      if (is_acq(mo)) acquire(p);
   }
   check_free((uintptr_t)p, sz, pc);
   if (!nosched) spin_check(pc, p, v);
   return v;
}

static void at_store(void *p, int sz, uint64_t v, int mo, void *pc)
{
   check_free((uintptr_t)p, sz, pc);
   step("store", p, pc);
   co_t *me = &cos[cur];
   me->yielded = false;
   me->nseen = 0;
   check_free((uintptr_t)p, sz, pc);
   if (mo == __ATOMIC_SEQ_CST) flush_sb(me);
   else if (!nosched && bound_weak > 0 && weak_used < bound_weak && me->nsb < 8 && choose(2) == 1) {
      weak_used++;
      sbent_t *e = &me->sb[me->nsb++];
      e->addr = p; e->size = sz; e->val = v; e->vc = me->vc; e->release = is_rel(mo);
      if (e->release) me->vc.c[cur]++;
      if (tracing) tr("  (delayed)", p, pc);
      return;
   }
   else if (me->nsb > 0) {
      // Keep the order of this thread's stores
      if (me->nsb < 8) {
         sbent_t *e = &me->sb[me->nsb++];
         e->addr = p; e->size = sz; e->val = v; e->vc = me->vc; e->release = is_rel(mo);
         if (e->release) me->vc.c[cur]++;
         return;
      }
      flush_sb(me);
   }
   uint64_t old = raw_load(p, sz);
   raw_store(p, sz, v);
   vc_t *s = sync_for(p);
   if (is_rel(mo)) release(p);
   else memset(s, 0, sizeof(*s));
   (void)old;
   progress();
}

typedef uint64_t (*rmw_t)(uint64_t, uint64_t);
static uint64_t at_rmw(void *p, int sz, uint64_t a, int op, int mo, void *pc)
{
   check_free((uintptr_t)p, sz, pc);
   step("rmw", p, pc);
   co_t *me = &cos[cur];
   me->yielded = false;
   me->nseen = 0;
   flush_sb(me);
   uint64_t o = raw_load(p, sz), n = o;
   switch (op) {
   case 0: n = a; break;
   case 1: n = o + a; break;
   case 2: n = o - a; break;
   case 3: n = o & a; break;
   case 4: n = o | a; break;
   case 5: n = o ^ a; break;
   case 6: n = ~(o & a); break;
   }
   raw_store(p, sz, n);
   if (is_acq(mo)) acquire(p);
   if (is_rel(mo)) release(p);
   progress();
   return o;
}

static bool at_cas(void *p, int sz, uint64_t exp, uint64_t des, int mo, int fmo, uint64_t *out, void *pc)
{
   check_free((uintptr_t)p, sz, pc);
   step("cas", p, pc);
   co_t *me = &cos[cur];
   me->yielded = false;
   flush_sb(me);
   uint64_t m = sz == 8 ? ~0ull : (1ull << (8 * sz)) - 1;
   uint64_t o = raw_load(p, sz);
   *out = o;
   if (o == (exp & m)) {
      raw_store(p, sz, des);
      me->nseen = 0;
      if (is_acq(mo)) acquire(p);
      if (is_rel(mo)) release(p);
      progress();
      return true;
   }
   if (is_acq(fmo)) acquire(p);
   if (!nosched) spin_check(pc, p, o);
   return false;
}

#define AT(bits, type) \
   type __tsan_atomic##bits##_load(const volatile type *p, int mo) { return at_load((void *)p, bits / 8, mo, PC); } \
   void __tsan_atomic##bits##_store(volatile type *p, type v, int mo) { at_store((void *)p, bits / 8, v, mo, PC); } \
   type __tsan_atomic##bits##_exchange(volatile type *p, type v, int mo) { return at_rmw((void *)p, bits / 8, v, 0, mo, PC); } \
   type __tsan_atomic##bits##_fetch_add(volatile type *p, type v, int mo) { return at_rmw((void *)p, bits / 8, v, 1, mo, PC); } \
   type __tsan_atomic##bits##_fetch_sub(volatile type *p, type v, int mo) { return at_rmw((void *)p, bits / 8, v, 2, mo, PC); } \
   type __tsan_atomic##bits##_fetch_and(volatile type *p, type v, int mo) { return at_rmw((void *)p, bits / 8, v, 3, mo, PC); } \
   type __tsan_atomic##bits##_fetch_or(volatile type *p, type v, int mo) { return at_rmw((void *)p, bits / 8, v, 4, mo, PC); } \
   type __tsan_atomic##bits##_fetch_xor(volatile type *p, type v, int mo) { return at_rmw((void *)p, bits / 8, v, 5, mo, PC); } \
   type __tsan_atomic##bits##_fetch_nand(volatile type *p, type v, int mo) { return at_rmw((void *)p, bits / 8, v, 6, mo, PC); } \
   int __tsan_atomic##bits##_compare_exchange_strong(volatile type *p, type *c, type v, int mo, int fmo) \
   { uint64_t o; bool r = at_cas((void *)p, bits / 8, *c, v, mo, fmo, &o, PC); if (!r) *c = o; return r; } \
   int __tsan_atomic##bits##_compare_exchange_weak(volatile type *p, type *c, type v, int mo, int fmo) \
   { uint64_t o; bool r = at_cas((void *)p, bits / 8, *c, v, mo, fmo, &o, PC); if (!r) *c = o; return r; } \
   type __tsan_atomic##bits##_compare_exchange_val(volatile type *p, type c, type v, int mo, int fmo) \
   { uint64_t o; at_cas((void *)p, bits / 8, c, v, mo, fmo, &o, PC); return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char fence_obj;
void __tsan_atomic_thread_fence(int mo)
{
   flush_sb(&cos[cur]);
   if (is_acq(mo)) acquire(&fence_obj);
   if (is_rel(mo)) release(&fence_obj);
}
void __tsan_atomic_signal_fence(int mo) {}

// ---------------------------------------------------------------- emulated TLS
typedef struct { size_t size, align; void *obj; void *templ; } emutls_t;
static void *arena_alloc(size_t n);
void *__emutls_get_address(emutls_t *c)
{
   co_t *me = &cos[cur];
   for (int i = 0; i < me->ntls; i++)
      if (me->tls[i].key == c) return me->tls[i].mem;
   void *m = arena_alloc(c->size);
   if (c->templ) memcpy(m, c->templ, c->size); else memset(m, 0, c->size);
   me->tls[me->ntls].key = c; me->tls[me->ntls++].mem = m;
   return m;
}

int *mc_errno_location(void) { return &cos[cur].err; }
#undef errno
#define errno (cos[cur].err)
// ---------------------------------------------------------------- heap
static void *arena_alloc(size_t n)
{
   n = (n + 15) & ~15ull;
   size_t tot = n + 32;
   if (arena_used + tot > ARENASZ) die_run("out of arena");
   char *b = (char *)ARENA + arena_used;
   arena_used += tot;
   *(size_t *)b = n;
   freed[(b - (char *)ARENA) >> 4] = 2;              // guard
   freed[(b - (char *)ARENA + 16 + n) >> 4] = 2;
   return b + 16;
}
void *mc_malloc(size_t n)
{
   void *p = arena_alloc(n);
   memset(p, 0xcd, n);
   return p;
}
void *mc_calloc(size_t n)
{
   void *p = arena_alloc(n);
   memset(p, 0, n);
   return p;
}
void mc_free(void *p)
{
   if (!p) return;
   uintptr_t a = (uintptr_t)p;
   if (a < ARENA || a >= ARENA + ARENASZ) die_run("free of a pointer that was not allocated");
   size_t n = *(size_t *)(a - 16);
   if (n && freed[(a - ARENA) >> 4]) die_run("double free at %s", pcname(PC));
   // Freeing counts as a write to the whole block
   if (!nosched) access_plain(p, n, true, PC);
   memset(freed + ((a - ARENA) >> 4), 1, n >> 4);
}
void *xmalloc(size_t n) { return mc_malloc(n); }
void *xcalloc(size_t n) { return mc_calloc(n); }
void *xmalloc_array(size_t a, size_t b) { return mc_malloc(a * b); }
void *xcalloc_array(size_t a, size_t b) { return mc_calloc(a * b); }
void *xmalloc_flex(size_t f, size_t a, size_t b) { return mc_malloc(f + a * b); }
void *xcalloc_flex(size_t f, size_t a, size_t b) { return mc_calloc(f + a * b); }
void *xrealloc(void *p, size_t n)
{
   void *q = mc_malloc(n);
   if (p) {
      size_t o = *(size_t *)((char *)p - 16);
      access_plain(p, o, false, PC);
      memcpy(q, p, o < n ? o : n);
      mc_free(p);
   }
   return q;
}
void *xrealloc_array(void *p, size_t a, size_t b) { return xrealloc(p, a * b); }
void *xrealloc_flex(void *p, size_t f, size_t a, size_t b) { return xrealloc(p, f + a * b); }
char *xstrdup(const char *s) { char *p = mc_malloc(strlen(s) + 1); strcpy(p, s); return p; }
char *xstrndup(const char *s, size_t n) { char *p = mc_malloc(n + 1); strncpy(p, s, n); p[n] = 0; return p; }
char *xvasprintf(const char *fmt, va_list ap)
{ char b[512]; vsnprintf(b, sizeof(b), fmt, ap); return xstrdup(b); }
char *xasprintf(const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); char *r = xvasprintf(fmt, ap); va_end(ap); return r; }
int checked_sprintf(char *buf, int len, const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); int r = vsnprintf(buf, len, fmt, ap); va_end(ap); return r; }
size_t next_power_of_2(size_t n) { size_t r = 1; while (r < n) r <<= 1; return r; }
bool is_power_of_2(size_t n) { return n && !(n & (n - 1)); }
int ilog2(int64_t n) { int r = 0; while ((1ll << r) < n) r++; return r; }

#define DIEFN(name) void name(const char *fmt, ...) \
   { char b[400]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap); die_run(#name ": %s", b); }
DIEFN(fatal_trace) DIEFN(fatal) DIEFN(fatal_errno)
void should_not_reach_here(void) { die_run("should_not_reach_here called at %s", pcname(PC)); }
#undef should_not_reach_here
void mc_assert_fail(const char *e, const char *f, unsigned l, const char *fn)
{ const char *s = strrchr(f, '/'); (void)l; die_run("assertion failed: %s in %s (%s)", e, fn, s ? s + 1 : f); }
void mspace_stack_limit(void *p) {}
void mc_missing(const char *s) { fprintf(stderr, "ERROR: %s is not modelled\n", s); _exit(2); }
void __cleanup_array(void *p)
{ void **a = p; mc_free(*a); }
void __array_resize_slow(void **ptr, uint32_t *limit, uint32_t count, size_t size)
{
   if (count > *limit) { *limit = count * 2 > 16 ? count * 2 : 16; *ptr = xrealloc(*ptr, *limit * size); }
}
int mc_ncpu = 4;
int nvc_nprocs(void) { return mc_ncpu; }
int mc_rand(void) { return 12345; }
void fill_cpu_state(void *cpu, void *uc) { memset(cpu, 0, 16); }
void capture_registers(void *cpu) { memset(cpu, 0, 16); }
char *mc_getenv(const char *n) { return NULL; }
void mc_nosched(bool on) { nosched = on; if (!on) { cos[cur].nseen = 0; } }
long mc_now(void) { return nsteps; }
int mc_self(void) { return cur; }
void mc_point(void *p) { step("point", p, PC); cos[cur].yielded = false; }

#define NEXIT 8
static void (*exits[NEXIT])(void);
static int nexits;
int mc_atexit(void (*fn)(void)) { exits[nexits++] = fn; return 0; }
void mc_run_atexit(void) { while (nexits > 0) exits[--nexits](); }

// ---------------------------------------------------------------- pthreads
static void co_main(void)
{
   co_t *me = &cos[cur];
   deliver_signals(me);
   me->ret = me->fn(me->arg);
   flush_sb(me);
   me->done = true;
   release(me);
   progress();
   for (int i = 0; i < nco; i++)
      if (!cos[i].done) { reschedule(true); __builtin_trap(); }
   co_exit_to_sched();
}

static int co_new(void *(*fn)(void *), void *arg)
{
   if (nco == MAXT) die_run("too many threads");
   int id = nco++;
   co_t *c = &cos[id];
   memset(c, 0, sizeof(*c));
   c->id = id; c->live = true; c->fn = fn; c->arg = arg;
   c->stack = stacks + id * STACKSZ;
   uintptr_t *sp = (uintptr_t *)(c->stack + STACKSZ - 64);
   *--sp = 0;
   *--sp = (uintptr_t)co_main;
   for (int i = 0; i < 6; i++) *--sp = 0;
   c->sp = sp;
   c->vc.c[id] = 1;
   return id;
}

int mc_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg)
{
   step("create", t, PC);
   flush_sb(&cos[cur]);
   int id = co_new(fn, arg);
   cos[id].vc = cos[cur].vc;
   cos[id].vc.c[id] = 1;
   cos[id].sigmask = cos[cur].sigmask;
   cos[cur].vc.c[cur]++;
   *t = id + 1;
   return 0;
}
static bool p_done(void *a) { return ((co_t *)a)->done; }
int mc_pthread_join(pthread_t t, void **ret)
{
   co_t *c = &cos[t - 1];
   step("join", c, PC);
   block_until(p_done, c, "pthread_join");
   if (c->joined) die_run("thread joined twice");
   c->joined = true;
   acquire(c);
   if (ret) *ret = c->ret;
   return 0;
}
pthread_t mc_pthread_self(void) { return cur + 1; }

typedef struct { void *addr; int owner; int val; int waiters[MAXT]; int nw; } obj_t;
#define NOBJ 256
static obj_t objs[NOBJ];
static int nobjs;
static obj_t *obj(void *a)
{
   for (int i = 0; i < nobjs; i++) if (objs[i].addr == a) return &objs[i];
   if (nobjs == NOBJ) die_run("too many sync objects");
   obj_t *o = &objs[nobjs++];
   memset(o, 0, sizeof(*o));
   o->addr = a; o->owner = -1;
   return o;
}
static bool p_free(void *a) { return ((obj_t *)a)->owner < 0; }
static void lock_obj(obj_t *o, const char *what)
{
   block_until(p_free, o, what);
   o->owner = cur;
   acquire(o);
   cos[cur].nseen = 0;
}
int mc_mutex_lock(pthread_mutex_t *m)
{
   step("mutex_lock", m, PC);
   obj_t *o = obj(m);
   if (o->owner == cur) die_run("mutex locked twice by the same thread");
   lock_obj(o, "pthread_mutex_lock");
   return 0;
}
int mc_mutex_trylock(pthread_mutex_t *m)
{
   step("mutex_try", m, PC);
   obj_t *o = obj(m);
   if (o->owner >= 0) return EBUSY;
   o->owner = cur; acquire(o);
   return 0;
}
int mc_mutex_unlock(pthread_mutex_t *m)
{
   step("mutex_unlock", m, PC);
   obj_t *o = obj(m);
   if (o->owner != cur) die_run("mutex unlocked by a thread that does not own it");
   flush_sb(&cos[cur]);
   o->owner = -1;
   release(o);
   progress();
   return 0;
}
static bool p_woken(void *a)
{
   obj_t *o = ((void **)a)[0];
   int self = (int)(intptr_t)((void **)a)[1];
   for (int i = 0; i < o->nw; i++) if (o->waiters[i] == self) return false;
   return true;
}
int mc_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
   step("cond_wait", c, PC);
   obj_t *oc = obj(c), *om = obj(m);
   if (om->owner != cur) die_run("cond_wait without holding the mutex");
   flush_sb(&cos[cur]);
   om->owner = -1;
   release(om);
   oc->waiters[oc->nw++] = cur;
   progress();
   void *a[2] = { oc, (void *)(intptr_t)cur };
   block_until(p_woken, a, "pthread_cond_wait");
   lock_obj(om, "pthread_cond_wait (mutex)");
   return 0;
}
int mc_cond_broadcast(pthread_cond_t *c)
{
   step("cond_bcast", c, PC);
   flush_sb(&cos[cur]);
   obj(c)->nw = 0;
   progress();
   return 0;
}
int mc_cond_signal(pthread_cond_t *c)
{
   step("cond_signal", c, PC);
   flush_sb(&cos[cur]);
   obj_t *o = obj(c);
   if (o->nw) {
      int k = choose(o->nw);
      memmove(&o->waiters[k], &o->waiters[k + 1], sizeof(int) * (o->nw - k - 1));
      o->nw--;
   }
   progress();
   return 0;
}
int mc_sem_init(sem_t *s, int sh, unsigned v) { obj(s)->val = v; return 0; }
int mc_sem_post(sem_t *s)
{
   step("sem_post", s, PC);
   flush_sb(&cos[cur]);
   obj(s)->val++;
   release(obj(s));
   progress();
   return 0;
}
static bool p_sem(void *a) { return ((obj_t *)a)->val > 0; }
int mc_sem_wait(sem_t *s)
{
   step("sem_wait", s, PC);
   block_until(p_sem, obj(s), "sem_wait");
   obj(s)->val--;
   acquire(obj(s));
   return 0;
}
int mc_sem_timedwait(sem_t *s, const struct timespec *ts) { return mc_sem_wait(s); }
int mc_sem_trywait(sem_t *s)
{
   step("sem_trywait", s, PC);
   obj_t *o = obj(s);
   if (o->val > 0) { o->val--; acquire(o); return 0; }
   errno = EAGAIN;
   return -1;
}
int mc_sched_yield(void) { do_yield("sched_yield"); return 0; }
int mc_usleep(unsigned u) { do_yield("usleep"); return 0; }
void spin_wait(void) { do_yield("spin_wait"); }

// ---------------------------------------------------------------- signals
static struct sigaction sigs[65];
static char sigobj[65];
static uint64_t to_mask(const sigset_t *s)
{
   uint64_t m = 0;
   for (int i = 1; i < 64; i++) if (sigismember(s, i) == 1) m |= 1ull << i;
   return m;
}
int mc_sigaction(int sig, const struct sigaction *sa, struct sigaction *old)
{ if (old) *old = sigs[sig]; if (sa) sigs[sig] = *sa; return 0; }
int mc_pthread_sigmask(int how, const sigset_t *set, sigset_t *old)
{
   co_t *me = &cos[cur];
   if (old) {
      sigemptyset(old);
      for (int i = 1; i < 64; i++) if (me->sigmask & (1ull << i)) sigaddset(old, i);
   }
   if (set) {
      uint64_t m = to_mask(set);
      if (how == SIG_SETMASK) me->sigmask = m;
      else if (how == SIG_BLOCK) me->sigmask |= m;
      else me->sigmask &= ~m;
   }
   return 0;
}
int mc_pthread_kill(pthread_t t, int sig)
{
   step("kill", (void *)t, PC);
   flush_sb(&cos[cur]);
   co_t *c = &cos[t - 1];
   if (c->done) return ESRCH;
   c->sigpend |= 1ull << sig;
   release(&sigobj[sig]);
   progress();
   return 0;
}
static void deliver_signals(co_t *c)
{
   while (sig_deliverable(c)) {
      int sig = __builtin_ctzll(c->sigpend & ~c->sigmask);
      c->sigpend &= ~(1ull << sig);
      uint64_t old = c->sigmask;
      bool oldy = c->yielded;
      bool (*op)(void *) = c->pred; void *oa = c->pred_arg;
      c->pred = NULL;
      c->sigmask |= to_mask(&sigs[sig].sa_mask) | (1ull << sig);
      acquire(&sigobj[sig]);
      flush_sb(c);
      siginfo_t si;
      memset(&si, 0, sizeof(si));
      si.si_pid = getpid();
      int e = errno;
      if (sigs[sig].sa_sigaction) sigs[sig].sa_sigaction(sig, &si, NULL);
      errno = e;
      c->sigmask = old;
      c->yielded = oldy;
      c->pred = op; c->pred_arg = oa;
   }
}
static bool p_never(void *a) { return *(bool *)a; }
int mc_sigsuspend(const sigset_t *set)
{
   co_t *me = &cos[cur];
   uint64_t old = me->sigmask;
   me->sigmask = to_mask(set);
   strncpy(me->last, "sigsuspend", sizeof(me->last) - 1);
   bool flag = false;
   flush_sb(me);
   while (!sig_deliverable(me)) {
      me->pred = p_never; me->pred_arg = &flag;
      reschedule(true);
      me->pred = NULL;
   }
   deliver_signals(me);
   me->sigmask = old;
   errno = EINTR;
   return -1;
}

// ---------------------------------------------------------------- linearizability
// A history of operations on a map from small keys to small values, checked by
// exhaustive search for a legal sequential order that respects real time.
typedef struct { int type, key, a, b, ret, tid; long inv, res; bool done; } hop_t;
static hop_t hist[16];
static int nhist;
static long hclock;
int mc_op_begin(int type, int key, int a, int b)
{
   if (nhist == 16) die_run("history too long");
   hist[nhist] = (hop_t){ type, key, a, b, 0, cur, ++hclock, 0, false };
   return nhist++;
}
void mc_op_end(int i, int ret) { hist[i].ret = ret; hist[i].res = ++hclock; hist[i].done = true; }
static bool lin(unsigned used, int *map)
{
   if (used == (1u << nhist) - 1) return true;
   for (int i = 0; i < nhist; i++) {
      if (used & (1u << i)) continue;
      bool ok = true;
      for (int j = 0; j < nhist; j++)
         if (!(used & (1u << j)) && j != i && hist[j].res < hist[i].inv) { ok = false; break; }
      if (!ok) continue;
      int k = hist[i].key, old = map[k], exp = old, neu = old;
      switch (hist[i].type) {
      case 0: neu = hist[i].a; exp = hist[i].ret; break;      // put
      case 1: break;                                          // get
      case 2: if (old == hist[i].a) neu = hist[i].b; break;   // cas returns the old value
      }
      if (exp != hist[i].ret) continue;
      map[k] = neu;
      if (lin(used | (1u << i), map)) return true;
      map[k] = old;
   }
   return false;
}
void mc_check_lin(void)
{
   int map[32] = {};
   if (lin(0, map)) return;
   char buf[600]; int o = 0;
   static const char *names[] = { "put", "get", "cas" };
   for (int i = 0; i < nhist; i++)
      o += snprintf(buf + o, sizeof(buf) - o, " t%d:%s(k%d,%d,%d)=%d[%ld-%ld]", hist[i].tid, names[hist[i].type],
                    hist[i].key, hist[i].a, hist[i].b, hist[i].ret, hist[i].inv, hist[i].res);
   die_run("history is not linearizable:%s", buf);
}

// ---------------------------------------------------------------- explorer
static void (*scen)(int);
static int scen_arg;
static void *scen_thread(void *arg)
{
   scen(scen_arg);
   return NULL;
}

static char *seg_addr[8], *seg_copy[8];
static size_t seg_len[8];
static int nseg;
static int find_segs(struct dl_phdr_info *info, size_t sz, void *arg)
{
   if (!strstr(info->dlpi_name, (const char *)arg)) return 0;
   for (int i = 0; i < info->dlpi_phnum; i++)
      if (info->dlpi_phdr[i].p_type == PT_LOAD && (info->dlpi_phdr[i].p_flags & PF_W)) {
         seg_addr[nseg] = (char *)info->dlpi_addr + info->dlpi_phdr[i].p_vaddr;
         seg_len[nseg] = info->dlpi_phdr[i].p_memsz;
         nseg++;
      }
   // Leave RELRO alone
   for (int i = 0; i < info->dlpi_phnum; i++)
      if (info->dlpi_phdr[i].p_type == PT_GNU_RELRO) {
         char *end = (char *)info->dlpi_addr + info->dlpi_phdr[i].p_vaddr + info->dlpi_phdr[i].p_memsz;
         end = (char *)(((uintptr_t)end) & ~4095ull);
         for (int k = 0; k < nseg; k++)
            if (end > seg_addr[k] && end <= seg_addr[k] + seg_len[k]) {
               seg_len[k] -= end - seg_addr[k]; seg_addr[k] = end;
            }
      }
   return 0;
}

static long total_steps;
static void run_one(void)
{
   for (int i = 0; i < nseg; i++) memcpy(seg_addr[i], seg_copy[i], seg_len[i]);
   memset(freed, 0, (arena_used >> 4) + 2);
   arena_used = 0;
   gen++; nshad = 0;
   nco = 0; cur = 0; nobjs = 0; nexits = 0;
   nsteps = 0; preempts_used = 0; weak_used = 0;
   nhist = 0; hclock = 0;
   nosched = false; failed = false; failtext[0] = 0; ntrace = 0; trace[0] = 0;
   memset(sigs, 0, sizeof(sigs));
   pos = 0;
   co_new(scen_thread, NULL);
   co_switch(&sched_sp, cos[0].sp);
   total_steps += nsteps;
}

static bool next_schedule(void)
{
   // Depth-first: advance the last choice that has an untried alternative.  The
   // first deviation from the default schedule is split among the workers.
   for (;;) {
      while (nch > 0 && ch[nch - 1].cur + 1 >= ch[nch - 1].n) nch--;
      if (nch == 0) return false;
      ch[nch - 1].cur++;
      bool first = true;
      for (int i = 0; i < nch - 1; i++) if (ch[i].cur) { first = false; break; }
      if (first && (nch - 1 + ch[nch - 1].cur) % nworkers != worker) continue;
      return true;
   }
}

int main(int argc, char **argv)
{
   if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("MC_REEXEC")) {
      personality(ADDR_NO_RANDOMIZE);
      setenv("MC_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
   }
   if (argc < 6) { fprintf(stderr, "usage: mc subj.so scenario arg preemptions delays [workers max_execs seconds] [replay]\n"); return 2; }
   scen_arg = atoi(argv[3]);
   bound_preempt = atoi(argv[4]);
   bound_weak = atoi(argv[5]);
   nworkers = argc > 6 ? atoi(argv[6]) : 1;
   long max_execs = argc > 7 ? atol(argv[7]) : 0;
   double max_s = argc > 8 ? atof(argv[8]) : 0;
   const char *replay = argc > 9 ? argv[9] : NULL;

   if (mmap((void *)ARENA, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("arena"); return 2; }
   freed = calloc(ARENASZ / 16 + 16, 1);
   shads = calloc(NSHAD, sizeof(shad_t));
   stacks = mmap(NULL, MAXT * STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);

   void *so = dlopen(argv[1], RTLD_LAZY | RTLD_GLOBAL);
   if (!so) { fprintf(stderr, "%s\n", dlerror()); return 2; }
   scen = dlsym(so, argv[2]);
   if (!scen) { fprintf(stderr, "no scenario %s\n", argv[2]); return 2; }
   const char *base = strrchr(argv[1], '/');
   dl_iterate_phdr(find_segs, (void *)(base ? base + 1 : argv[1]));
   for (int i = 0; i < nseg; i++) {
      seg_copy[i] = malloc(seg_len[i]);
      memcpy(seg_copy[i], seg_addr[i], seg_len[i]);
   }

   if (replay) {
      for (const char *p = replay; *p;) {
         char *e; long n = strtol(p, &e, 10); if (e == p) break;
         long c = strtol(e + 1, &e, 10);
         ch[nch].n = n; ch[nch].cur = c; nch++;
         p = *e == ',' ? e + 1 : e;
      }
      tracing = true;
      run_one();
      printf("%s%s\n", trace, failed ? failtext : "ok");
      return failed;
   }

   // Run workers
   int fds[64];
   for (int w = 0; w < nworkers; w++) {
      int pp[2];
      if (pipe(pp)) return 2;
      fflush(NULL);
      if (fork() == 0) {
         close(pp[0]);
         worker = w;
         struct timespec t0, t1;
         clock_gettime(CLOCK_MONOTONIC, &t0);
         long n = 0; bool complete = false;
         for (;;) {
            bool skip = n == 0 && w != 0;   // the default schedule belongs to worker 0
            run_one();
            if (!skip || failed) n++;
            else n = 1;
            if (failed) break;
            if (!next_schedule()) { complete = true; break; }
            if (max_execs && n >= max_execs) break;
            if (max_s > 0 && (n & 63) == 0) {
               clock_gettime(CLOCK_MONOTONIC, &t1);
               if ((t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9 > max_s) break;
            }
         }
         FILE *f = fdopen(pp[1], "w");
         fprintf(f, "%ld %ld %d %d\n", w ? n - 1 : n, total_steps, complete, failed);
         if (failed) {
            fprintf(f, "%s\n", failtext);
            for (int i = 0; i < nch; i++) fprintf(f, "%d:%d,", ch[i].n, ch[i].cur);
            fprintf(f, "\n");
         }
         fclose(f);
         _exit(0);
      }
      close(pp[1]);
      fds[w] = pp[0];
   }
   long execs = 0, steps = 0; bool complete = true, bad = false, err = false;
   for (int w = 0; w < nworkers; w++) {
      FILE *f = fdopen(fds[w], "r");
      long n, s; int c, b;
      if (fscanf(f, "%ld %ld %d %d\n", &n, &s, &c, &b) != 4) { err = true; fclose(f); continue; }
      execs += n; steps += s; complete &= c;
      if (b && !bad) {
         bad = true;
         static char l1[2048], l2[1 << 18];
         if (!fgets(l1, sizeof(l1), f)) l1[0] = 0;
         if (!fgets(l2, sizeof(l2), f)) l2[0] = 0;
         printf("FAIL %s", l1);
         printf("SCHEDULE %s", l2);
      }
      fclose(f);
   }
   while (wait(NULL) > 0);
   printf("EXECS %ld STEPS %ld COMPLETE %d\n", execs, steps, complete && !err);
   return err ? 2 : bad;
}
