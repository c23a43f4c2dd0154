/* Prints the hierarchy and the value changes of an FST file. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <inttypes.h>
#include "fstapi.h"

static void hex(const unsigned char *p, size_t n)
{
   for (size_t i = 0; i < n; i++)
      printf("%02x", p[i]);
}

static uint32_t *lens;
static unsigned char *kinds;

static void change(void *u, uint64_t t, fstHandle h, const unsigned char *v)
{
   printf("C %" PRIu64 " %u ", t, h);
   hex(v, strlen((const char *)v));
   printf("\n");
}

static void changevar(void *u, uint64_t t, fstHandle h, const unsigned char *v, uint32_t len)
{
   printf("C %" PRIu64 " %u ", t, h);
   hex(v, len);
   printf("\n");
}

int main(int argc, char **argv)
{
   void *c = fstReaderOpen(argv[1]);
   if (c == NULL)
      return 2;
   struct fstHier *h;
   while ((h = fstReaderIterateHier(c)) != NULL) {
      switch (h->htyp) {
      case FST_HT_SCOPE:
         printf("S %d %s\n", h->u.scope.typ, h->u.scope.name);
         break;
      case FST_HT_UPSCOPE:
         printf("U\n");
         break;
      case FST_HT_VAR:
         printf("V %d %d %u %u %s\n", h->u.var.typ, h->u.var.direction, h->u.var.length, h->u.var.handle, h->u.var.name);
         break;
      case FST_HT_ATTRBEGIN:
         if (h->u.attr.typ == FST_AT_MISC && h->u.attr.subtype == FST_MT_SUPVAR)
            printf("A %" PRIu64 " %s\n", h->u.attr.arg, h->u.attr.name);
         break;
      }
   }
   printf("E %" PRIu64 " %" PRIu64 "\n", fstReaderGetStartTime(c), fstReaderGetEndTime(c));
   fstReaderSetFacProcessMaskAll(c);
   fstReaderIterBlocks2(c, change, changevar, NULL, NULL);
   fstReaderClose(c);
   return 0;
}
