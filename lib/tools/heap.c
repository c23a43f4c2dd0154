/* Exhaustive operation sequences on the garbage collected heap.
   Usage: heap HEAPLINES DEPTH MODE FIRST NFIRST SIZE...
   Sizes may be given in granules with a suffix: 62l = 62*G bytes, 62l-1.
   Uses only the public interface of mspace.h. */
#include <assert.h>
#include "util.h"
#include "thread.h"
#include "option.h"
#include "rt/mspace.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <setjmp.h>

#define KEY   UINT64_C(0x5a5aa5a5c3c33c3c)
#define MAXO  64
#define NROOT 3
#define NTL   2

static size_t granule, heap_size, margin;
static int nsizes; static size_t sizes[8]; static size_t extent[8];

typedef struct { uint64_t addr; size_t size, ext; int kind; int f[2], fp[2]; uint8_t tag; bool live; } obj_t;
static obj_t o[MAXO]; static int no;
static int root[NROOT], rootp[NROOT];   /* object, position 0=base 1=interior 2=end */
static mptr_t rp[NROOT];
static int tl[NTL][4], ntl[NTL]; static uint64_t tlslot[NTL][4]; static tlab_t *tlab[NTL]; static int ntlab;
static mspace_t *m;
static uint64_t m_enc;
static int oomed;
static long long nseq, nops, ngc, noom;

static void oom(mspace_t *mm, size_t size) { oomed = 1; }

__attribute__((noinline)) static void scrub(void)
{ char b[65536]; memset(b, 0, sizeof(b)); __asm__ volatile ("" : : "r"(b) : "memory"); }

#define CLEAR_REGS() __asm__ volatile ( \
   "xor %%ebx,%%ebx; xor %%r12d,%%r12d; xor %%r13d,%%r13d; xor %%r14d,%%r14d; xor %%r15d,%%r15d;" \
   "xor %%r8d,%%r8d; xor %%r9d,%%r9d; xor %%r10d,%%r10d; xor %%r11d,%%r11d; xor %%ecx,%%ecx;" \
   "xor %%esi,%%esi; xor %%edi,%%edi; xor %%edx,%%edx; xor %%eax,%%eax" \
   : : : "rbx", "r12", "r13", "r14", "r15", "r8", "r9", "r10", "r11", "rcx", "rsi", "rdi", "rdx", "rax", "memory")
static size_t arg_size; static int arg_tlab;
__attribute__((noinline)) static uint64_t do_alloc1(void)
{
   mspace_stack_limit(__builtin_frame_address(0));
   oomed = 0;
   void *p = mspace_alloc(m, arg_size);
   return (uintptr_t)p ^ KEY;
}
__attribute__((noinline)) static uint64_t do_alloc(size_t size)
{ arg_size = size; scrub(); CLEAR_REGS(); uint64_t r = do_alloc1(); return r; }
__attribute__((noinline)) static uint64_t do_tlab1(void)
{
   mspace_stack_limit(__builtin_frame_address(0));
   void *p = tlab_alloc(tlab[arg_tlab], arg_size);
   return (uintptr_t)p ^ KEY;
}
__attribute__((noinline)) static uint64_t do_tlab(int i, size_t size)
{ arg_size = size; arg_tlab = i; scrub(); CLEAR_REGS(); uint64_t r = do_tlab1(); return r; }
__attribute__((noinline)) static uint64_t do_find(uint64_t a, size_t *sz)
{ return (uintptr_t)mspace_find(m, (void *)(uintptr_t)(a ^ KEY), sz) ^ KEY; }
__attribute__((noinline)) static void wr(uint64_t a, size_t off, uint64_t v)
{ *(uint64_t *)((uintptr_t)(a ^ KEY) + off) = v; }
__attribute__((noinline)) static uint64_t rd(uint64_t a, size_t off)
{ return *(uint64_t *)((uintptr_t)(a ^ KEY) + off) ^ KEY; }
__attribute__((noinline)) static void fill(int k)
{ memset((void *)(uintptr_t)(o[k].addr ^ KEY), o[k].tag, o[k].size); }
__attribute__((noinline)) static int cmpbytes(int k, size_t a, size_t b)
{
   const uint8_t *p = (uint8_t *)(uintptr_t)(o[k].addr ^ KEY);
   for (size_t i = a; i < b; i++) if (p[i] != o[k].tag) return i;
   return -1;
}
static size_t slot_off(int k, int s) { return s == 0 ? 0 : (o[k].size / 8 - 1) * 8; }
static int nslots(int k) { return o[k].size >= 16 ? 2 : o[k].size >= 8 ? 1 : 0; }
static size_t pos_off(int k, int p) { return p == 0 ? 0 : p == 1 ? o[k].size / 2 : o[k].size; }

static int ops[32]; static int depth, cur;
static const char *opname(int op, char *b);

static void bad(const char *fmt, int a, long b)
{
   printf("BAD "); printf(fmt, a, b); printf(" after");
   for (int i = 0; i <= cur && i < depth; i++) { char b2[64]; printf(" %s;", opname(ops[i], b2)); }
   printf("\n"); fflush(stdout); _exit(1);
}

static void mark(int k) {
   if (k < 0 || o[k].live) return;
   o[k].live = true;
   for (int s = 0; s < nslots(k); s++) mark(o[k].f[s]);
}
static void reach(void)
{
   for (int i = 0; i < no; i++) o[i].live = false;
   for (int i = 0; i < NROOT; i++) mark(root[i]);
   for (int t = 0; t < ntlab; t++) for (int i = 0; i < ntl[t]; i++) mark(tl[t][i]);
}

static void check(void)
{
   reach();
   for (int k = 0; k < no; k++) {
      if (!o[k].live) continue;
      size_t lo = 0, hi = o[k].size;
      for (int s = 0; s < nslots(k); s++) {
         uint64_t want = o[k].f[s] < 0 ? 0 : (o[o[k].f[s]].addr ^ KEY) + pos_off(o[k].f[s], o[k].fp[s]);
         if ((rd(o[k].addr, slot_off(k, s)) ^ KEY) != want)
            bad("reference field %d of reachable object %ld changed", s, k);
      }
      if (nslots(k) == 2) { lo = 8; hi = slot_off(k, 1); }
      else if (nslots(k) == 1) lo = 8;
      int i = cmpbytes(k, lo, hi);
      if (i < 0 && nslots(k) == 2) i = cmpbytes(k, slot_off(k, 1) + 8, o[k].size);
      if (i >= 0) bad("reachable object %d overwritten at byte %ld", k, i);
      for (int p = 0; p < 3; p++) {
         size_t sz; uint64_t a = do_find((((o[k].addr ^ KEY) + pos_off(k, p)) ^ KEY), &sz);
         if (a != o[k].addr || sz != o[k].ext)
            bad("object %d is not found from its own address (position %ld)", k, p);
      }
   }
   for (int t = 0; t < ntlab; t++)
      for (int i = 0; i < ntl[t]; i++)
         if (rd(tlslot[t][i], 0) != (tl[t][i] < 0 ? KEY : o[tl[t][i]].addr))
            bad("word %ld of local buffer %d changed", i, t);
}

static int add_obj(uint64_t a, int si, int how)
{
   size_t sz; uint64_t base = do_find(a, &sz);
   if (no == MAXO) { printf("harness: too many objects\n"); _exit(2); }
   int k = no++;
   o[k] = (obj_t){ .addr = a, .size = sizes[si], .ext = sz, .f = { -1, -1 }, .tag = 0x11 + k };
   if (base != a) bad("size class %d: mspace_find does not return the new object %ld", si, k);
   if (sz < sizes[si]) bad("size class %d: object extent %ld too small", si, sz);
   if (extent[si] == 0) extent[si] = sz;
   else if (extent[si] != sz) bad("size class %d: extent now %ld", si, sz);
   uint64_t lo = a ^ KEY;
   for (int i = 0; i < k; i++) if (o[i].live) {
      uint64_t l2 = o[i].addr ^ KEY;
      if (lo < l2 + o[i].ext && l2 < lo + sz)
         bad("new object overlaps reachable object %d (size %ld)", i, sizes[si]);
   }
   fill(k);
   for (int s = 0; s < nslots(k); s++) wr(a, slot_off(k, s), 0);
   return k;
}

static void oom_check(int si)
{
   /* A failed allocation is right only if no free range is big enough */
   char used[4096]; memset(used, 0, sizeof(used));
   size_t n = heap_size / granule;
   static uint64_t space;
   if (extent[si] == 0) return;
   /* lowest address of the heap is that of the first object allocated */
   space = m_enc ^ KEY;
   for (int i = 0; i < no; i++) if (o[i].live) {
      size_t l = ((o[i].addr ^ KEY) - space) / granule;
      for (size_t j = 0; j < o[i].ext / granule; j++) used[l + j] = 1;
   }
   /* words left over in the padding of reachable objects may retain more:
      the collector is conservative */
   static char scanned[4096]; memset(scanned, 0, sizeof(scanned));
   for (bool more = true; more;) {
      more = false;
      for (size_t l = 0; l < n; l++) {
         if (!used[l] || scanned[l]) continue;
         scanned[l] = 1; more = true;
         for (size_t w = 0; w < granule; w += 8) {
            uint64_t v = *(uint64_t *)(uintptr_t)(space + l * granule + w);
            if (v < space || v >= space + heap_size) continue;
            used[(v - space) / granule] = 1;
            for (int i = 0; i < no; i++) {
               uint64_t b = o[i].addr ^ KEY;
               if (v >= b && v < b + o[i].ext)
                  for (size_t j = 0; j < o[i].ext / granule; j++) used[(b - space) / granule + j] = 1;
            }
         }
      }
   }
   size_t run = 0, best = 0;
   for (size_t i = 0; i < n; i++) { run = used[i] ? 0 : run + 1; if (run > best) best = run; }
   if (best * granule >= extent[si])
      bad("out of memory allocating size class %d although %ld bytes in a row are unreachable", si, best * granule);
   noom++;
}

enum { O_ALLOC, O_LINK, O_LOAD, O_NULL, O_COPY, O_POS, O_GC, O_TLALLOC, O_TLRESET, O_TLREL, O_TLBIG, O_FREE };
static struct { int k, a, b, c, d; } table[256]; static int nop;
static void addop(int k, int a, int b, int c, int d)
{ table[nop].k = k; table[nop].a = a; table[nop].b = b; table[nop].c = c; table[nop].d = d; nop++; }

static const char *opname(int op, char *b)
{
   static const char *n[] = { "alloc", "link", "load", "null", "copy", "position", "collect", "tlab_alloc", "tlab_reset", "tlab_release", "tlab_big", "mptr_free" };
   sprintf(b, "%s(%d,%d,%d,%d)", n[table[op].k], table[op].a, table[op].b, table[op].c, table[op].d);
   return b;
}
static int nroot = 2, mode, first, nfirst, nfresh;

static void set_root(int r, int k, int p)
{
   root[r] = k; rootp[r] = p;
   if (rp[r] == MPTR_INVALID) rp[r] = mptr_new(m, "root");
   *mptr_get(rp[r]) = k < 0 ? NULL : (void *)((uintptr_t)(o[k].addr ^ KEY) + pos_off(k, p));
}

/* returns false when the operation is not enabled in this state */
static bool apply(int op)
{
   int a = table[op].a, b = table[op].b, c = table[op].c, d = table[op].d;
   nops++;
   switch (table[op].k) {
   case O_ALLOC: {
      reach(); scrub();
      uint64_t p = do_alloc(sizes[b]);
      if (p == KEY) { if (!oomed) bad("allocation failed without calling the handler %d %ld", 0, 0); oom_check(b); return true; }
      set_root(a, add_obj(p, b, 0), 0);
      return true; }
   case O_LINK:
      if (root[a] < 0 || root[b] < 0 || nslots(root[a]) <= c) return false;
      o[root[a]].f[c] = root[b]; o[root[a]].fp[c] = d;
      wr(o[root[a]].addr, slot_off(root[a], c), (o[root[b]].addr ^ KEY) + pos_off(root[b], d));
      return true;
   case O_LOAD:
      if (root[a] < 0 || nslots(root[a]) <= b || o[root[a]].f[b] < 0) return false;
      set_root(a, o[root[a]].f[b], o[root[a]].fp[b]);
      return true;
   case O_NULL:
      if (root[a] < 0) return false;
      set_root(a, -1, 0);
      return true;
   case O_FREE:
      if (rp[a] == MPTR_INVALID) return false;
      root[a] = -1; mptr_free(m, &rp[a]);
      if (rp[a] != MPTR_INVALID) bad("mptr_free did not clear pointer %d%ld", a, 0);
      return true;
   case O_COPY:
      if (root[a] == root[b] && rootp[a] == rootp[b]) return false;
      set_root(a, root[b], rootp[b]);
      return true;
   case O_POS:
      if (root[a] < 0 || rootp[a] == b) return false;
      set_root(a, root[a], b);
      return true;
   case O_GC:
      scrub();
      if (do_alloc(heap_size * 2) != KEY) bad("allocated an object bigger than the heap %d %ld", 0, 0);
      ngc++;
      return true;
   case O_TLALLOC: {   /* a word in the local buffer that refers to root a */
      if (b >= ntlab || ntl[b] == 4) return false;
      uint64_t p = do_tlab(b, 8);
      size_t sz; if (do_find(p, &sz) != KEY) bad("small local allocation came from the heap %d %ld", 0, 0);
      int n = ntl[b]++;
      tlslot[b][n] = p; tl[b][n] = root[a];
      for (int t = 0; t < ntlab; t++) for (int i = 0; i < ntl[t]; i++)
         if ((t != b || i != n) && tlslot[t][i] == p) bad("local buffer word given out twice %d %ld", b, n);
      wr(p, 0, root[a] < 0 ? 0 : o[root[a]].addr ^ KEY);
      return true; }
   case O_TLRESET:
      if (a >= ntlab || ntl[a] == 0) return false;
      tlab_reset(tlab[a]); ntl[a] = 0;
      return true;
   case O_TLREL:   /* release and acquire again, or release the other first */
      if (ntlab == 0) return false;
      if (a == 0) { ntlab--; tlab_release(tlab[ntlab]); }
      else if (a == 1) { if (ntlab < 2) return false; tlab_release(tlab[0]); tlab[0] = tlab[1]; ntl[0] = ntl[1];
         memcpy(tl[0], tl[1], sizeof(tl[0])); memcpy(tlslot[0], tlslot[1], sizeof(tl[0]) * 2); ntlab--; }
      else { if (ntlab == NTL) return false; tlab[ntlab] = tlab_acquire(m); ntl[ntlab] = 0; ntlab++; }
      return true;
   case O_TLBIG: {  /* too big for the buffer: falls back to the heap */
      if (ntlab == 0) return false;
      reach(); scrub(); oomed = 0;
      uint32_t lim = tlab[0]->limit; tlab[0]->limit = tlab[0]->alloc;
      uint64_t p = do_tlab(0, sizes[b]);
      tlab[0]->limit = lim;
      if (p == KEY) { oom_check(b); return true; }
      set_root(a, add_obj(p, b, 1), 0);
      return true; }
   }
   return false;
}

static void begin(void)
{
   /* the heap is used again for every sequence: when nothing is reachable
      a collection makes all of it available again */
   bool created = m == NULL;
   if (created) {
      m = mspace_new(heap_size + margin);
      mspace_set_oom_handler(m, oom);
   }
   no = 0; ntlab = 0;
   for (int i = 0; i < NROOT; i++) { root[i] = -1; rootp[i] = 0; rp[i] = MPTR_INVALID; }
   /* find the base of the heap: the first allocation is dropped again */
   scrub(); do_alloc(heap_size * 2);
   uint64_t p = do_alloc(1);
   if (!created) { if (p != m_enc) bad("nothing is reachable but the heap is not completely free %d %ld", 0, 0); }
   m_enc = p;
   scrub(); do_alloc(heap_size * 2);
}
static void finish(void)
{
   while (ntlab > 0) tlab_release(tlab[--ntlab]);
   for (int i = 0; i < NROOT; i++) mptr_free(m, &rp[i]);
   for (int i = 0; i < no; i++) memset((void *)(uintptr_t)(o[i].addr ^ KEY), 0, o[i].ext);
   if ((nfresh++ & 63) == 0) { mspace_destroy(m); m = NULL; }
}


static void dfs(int d)
{
   /* replays the prefix for every extension: the heap has no snapshot */
   for (int op = 0; op < nop; op++) {
      if (d == 0 && op % nfirst != first) continue;
      ops[d] = op;
      begin();
      if (mode & 4) for (int i = 0; i < NTL; i++) { tlab[i] = tlab_acquire(m); ntl[i] = 0; ntlab++; }
      bool ok = true;
      for (int i = 0; ok && i <= d; i++) { cur = i; ok = apply(ops[i]); if (ok && i == d) check(); }
      if (ok && d + 1 == depth) {
         /* every leaf: collect, check, then fill the heap completely */
         cur = d; nseq++;
         scrub(); do_alloc(heap_size * 2); ngc++; check();
         for (int n = 0; n < MAXO; n++) {
            if (no == MAXO) break;
            reach(); scrub();
            uint64_t p = do_alloc(sizes[0]);
            if (p == KEY) { oom_check(0); break; }
            int k = add_obj(p, 0, 0);
            /* chain the new objects so that they stay reachable */
            if (nslots(k) > 0) { o[k].f[0] = root[0]; o[k].fp[0] = rootp[0];
               wr(o[k].addr, 0, root[0] < 0 ? 0 : (o[root[0]].addr ^ KEY) + pos_off(root[0], rootp[0]));
               set_root(0, k, 0); }
         }
         check();
      }
      finish();
      if (ok && d + 1 < depth) dfs(d + 1);
   }
}

int main(int argc, char **argv)
{
   thread_init(); set_default_options(); opt_set_str(OPT_GC_VERBOSE, "");
   int lines = atoi(argv[1]); depth = atoi(argv[2]); mode = atoi(argv[3]);
   first = atoi(argv[4]); nfirst = atoi(argv[5]);
   margin = 32;
   m = mspace_new(1 << 16); mspace_set_oom_handler(m, oom);
   uint64_t p = do_alloc(1); do_find(p, &granule); 
   mspace_destroy(m); m = NULL;
   heap_size = lines * granule;
   for (int i = 6; i < argc; i++) {
      char *e; long v = strtol(argv[i], &e, 10);
      if (*e == 'l') v = v * granule + (e[1] ? strtol(e + 1, NULL, 10) : 0);
      sizes[nsizes++] = v;
   }
   for (int r = 0; r < nroot; r++) for (int s = 0; s < nsizes; s++) addop(O_ALLOC, r, s, 0, 0);
   for (int r = 0; r < nroot; r++) for (int q = 0; q < nroot; q++) {
      addop(O_LINK, r, q, 0, 0); addop(O_LINK, r, q, 1, 2);
      if (mode & 1) { addop(O_LINK, r, q, 0, 2); addop(O_LINK, r, q, 1, 1); }
   }
   for (int r = 0; r < nroot; r++) {
      addop(O_LOAD, r, 0, 0, 0); addop(O_LOAD, r, 1, 0, 0);
      addop(O_NULL, r, 0, 0, 0); addop(O_COPY, r, 1 - r, 0, 0);
      if (mode & 1) { addop(O_POS, r, 1, 0, 0); addop(O_POS, r, 2, 0, 0); }
      if (mode & 2) addop(O_FREE, r, 0, 0, 0);
   }
   addop(O_GC, 0, 0, 0, 0);
   if (mode & 4) {
      for (int r = 0; r < nroot; r++) for (int t = 0; t < NTL; t++) addop(O_TLALLOC, r, t, 0, 0);
      for (int t = 0; t < NTL; t++) addop(O_TLRESET, t, 0, 0, 0);
      for (int t = 0; t < 3; t++) addop(O_TLREL, t, 0, 0, 0);
      addop(O_TLBIG, 0, 0, 0, 0); addop(O_TLBIG, 1, nsizes - 1, 0, 0);
   }
   dfs(0);
   printf("OK %lld %lld %lld %lld %d\n", nseq, nops, ngc, noom, nop);
   return 0;
}
