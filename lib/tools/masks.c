/* Every range operation of mask.c for every start and count on every pattern
   of at most two marked bits (and its complement), against arrays of bool. */
#include <assert.h>
#include "util.h"
#include "mask.h"
#include <stdlib.h>
#include <stdio.h>
#include <string.h>

static size_t n; static char ref[1024]; static bit_mask_t m, m2; static char ref2[1024];
static long long checks; static char what[128];
static void bad(const char *op, long a, long b)
{ printf("BAD %s(%ld,%ld) wrong for a mask of %zu bits with %s\n", op, a, b, n, what); fflush(stdout); exit(1); }
static void load(bit_mask_t *k, const char *r)
{ for (size_t i = 0; i < n; i++) if (r[i]) mask_set(k, i); else mask_clear(k, i); }
static int same(bit_mask_t *k, const char *r)
{ for (size_t i = 0; i < n; i++) if (!!mask_test(k, i) != r[i]) return 0;
  size_t c = 0; for (size_t i = 0; i < n; i++) c += r[i];
  return mask_popcount(k) == c; }

static void scans(void)
{
   long prev = -1; size_t it = -1; size_t c = 0, k = 0;
   for (size_t i = 0; i < n; i++) {
      checks++;
      if (ref[i]) prev = i;
      if (mask_scan_backwards(&m, i) != prev) bad("mask_scan_backwards", i, 0);
      size_t j = i; while (j < n && !ref[j]) j++;
      if (mask_count_clear(&m, i) != j - i) bad("mask_count_clear", i, 0);
      c += ref[i];
   }
   size_t last = 0;
   while (mask_iter(&m, &it)) {
      if (it >= n || !ref[it] || (k > 0 && it <= last)) bad("mask_iter", it, k);
      for (size_t q = k ? last + 1 : 0; q < it; q++) if (ref[q]) bad("mask_iter", it, q);
      last = it; k++;
      if (k > n) break;
   }
   if (k != c) bad("mask_iter", k, c);
   if (!same(&m, ref)) bad("mask_popcount", 0, 0);
}

static void ranges(int step)
{
   for (size_t s = 0; s < n; s++)
      for (size_t l = 0; s + l <= n; l += (l < 3 || (s + l) % 64 > 61 || (s + l) % 64 < 2 || s + l + 2 >= n) ? 1 : step) {
         checks++;
         int any = 0; for (size_t i = s; i < s + l; i++) any |= ref[i];
         if (mask_test_range(&m, s, l) != any) bad("mask_test_range", s, l);
         char r[1024]; memcpy(r, ref, n); memset(r + s, 1, l);
         mask_set_range(&m, s, l); if (!same(&m, r)) bad("mask_set_range", s, l);
         load(&m, ref);
         memcpy(r, ref, n); memset(r + s, 0, l);
         mask_clear_range(&m, s, l); if (!same(&m, r)) bad("mask_clear_range", s, l);
         load(&m, ref);
      }
}
static void binary(void)
{
   bit_mask_t k; mask_init(&k, n); char r[1024];
   checks++;
   mask_copy(&k, &m); if (!same(&k, ref)) bad("mask_copy", 0, 0);
   if (!mask_eq(&k, &m)) bad("mask_eq", 0, 0);
   if (mask_eq(&m2, &m) != !memcmp(ref, ref2, n)) bad("mask_eq", 1, 0);
   mask_union(&k, &m2); for (size_t i = 0; i < n; i++) r[i] = ref[i] | ref2[i]; if (!same(&k, r)) bad("mask_union", 0, 0);
   mask_copy(&k, &m); mask_intersect(&k, &m2); for (size_t i = 0; i < n; i++) r[i] = ref[i] & ref2[i]; if (!same(&k, r)) bad("mask_intersect", 0, 0);
   mask_copy(&k, &m); mask_subtract(&k, &m2); for (size_t i = 0; i < n; i++) r[i] = ref[i] & !ref2[i]; if (!same(&k, r)) bad("mask_subtract", 0, 0);
   mask_copy(&k, &m); mask_setall(&k); memset(r, 1, n); if (!same(&k, r)) bad("mask_setall", 0, 0);
   mask_clearall(&k); memset(r, 0, n); if (!same(&k, r)) bad("mask_clearall", 0, 0);
   mask_free(&k);
}
int main(int argc, char **argv)
{
   int step = atoi(argv[1]);
   for (int a = 2; a < argc; a++) {
      n = atoi(argv[a]); mask_init(&m, n); mask_init(&m2, n);
      for (int inv = 0; inv < 2; inv++) {
         for (long i = -1; i < (long)n; i++)
            for (long j = i; j < (long)n; j++) {
               if (i >= 0 && n > 70 && j > i && !(i % 64 < 2 || i % 64 > 61) ) continue;
               if (i < 0 && j >= 0) break;
               memset(ref, inv, n); if (i >= 0) ref[i] = !inv; if (j >= 0) ref[j] = !inv;
               snprintf(what, sizeof(what), "bits %ld and %ld %s", i, j, inv ? "clear" : "set");
               load(&m, ref);
               scans();
               if (i == j && (n <= 70 || i < 0 || i % 64 < 2 || i % 64 > 61)) ranges(n > 70 ? step : 1);
               memset(ref2, 0, n); if (j >= 0) ref2[j] = 1; if (i > 0) ref2[i - 1] = 1; load(&m2, ref2);
               binary();
               for (size_t b = 0; i == j && b < n; b++) {
                  load(&m, ref);
                  if (mask_test_and_set(&m, b) != ref[b] || !mask_test(&m, b)) bad("mask_test_and_set", b, 0);
               }
               load(&m, ref);
            }
      }
      mask_free(&m); mask_free(&m2);
   }
   printf("OK %lld\n", checks);
   return 0;
}
