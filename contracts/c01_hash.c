/* C01: equal names hash equally (hash.c) */
#include "config.h"
#include "verif.h"
#include "spec_str.h"
#include "hash.h"
#include <stdint.h>
#include "ircd/chattr.tab.c"

static uint32_t crc32hash[256];
static unsigned spec_hstep(unsigned h, char c)
{
  return (h >> 8) ^ crc32hash[(h ^ spec_fold((unsigned char)c)) & 255];
}
static unsigned rec_hash(unsigned h, const char *n)
{
  if (!*n) return h;
  return rec_hash(spec_hstep(h, *n), n + 1);
}
static unsigned strhash(const char *n)
  __CPROVER_requires(*n != 0)
  __CPROVER_ensures(__CPROVER_return_value == rec_hash(crc32hash[spec_fold((unsigned char)*n)], n + 1) % HASHSIZE)
  __CPROVER_assigns();
void verif_inv_strhash(const char *n, unsigned hash)
  __CPROVER_ensures(rec_hash(hash, n) == rec_hash(crc32hash[spec_fold((unsigned char)*__CPROVER_old(n))], __CPROVER_old(n) + 1));

void lemma_hash(unsigned h, const char *a, const char *b)
  __CPROVER_requires(rec_same(a, b))
  __CPROVER_ensures(rec_hash(h, a) == rec_hash(h, b))
  __CPROVER_assigns();

int lemma_samehash(const char *a, const char *b)
  __CPROVER_requires(rec_same(a, b) && *a != 0 && *b != 0)
  __CPROVER_ensures(__CPROVER_return_value == 1)
  __CPROVER_assigns();

#include "ircd/hash.c"

void lemma_hash(unsigned h, const char *a, const char *b)
{
  if (*a) lemma_hash(spec_hstep(h, *a), a + 1, b + 1);
}
int lemma_samehash(const char *a, const char *b)
{
  lemma_hash(crc32hash[spec_fold((unsigned char)*a)], a + 1, b + 1);
  return strhash(a) == strhash(b);
}
