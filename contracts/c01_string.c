/* C01: names are compared under one casemapping (ircd_string.c) */
#include "config.h"
#include "verif.h"
#include "spec_str.h"

int ircd_strcmp(const char *a, const char *b)
  __CPROVER_ensures(spec_sign(__CPROVER_return_value) == rec_order(a, b))
  __CPROVER_assigns();
void verif_inv_strcmp(const char *ra, const char *rb, const char *a, const char *b)
  __CPROVER_ensures(rec_order(ra, rb) == rec_order(a, b));

int ircd_strncmp(const char *a, const char *b, size_t n)
  __CPROVER_requires(n <= 0x7fffffff)
  __CPROVER_ensures(spec_sign(__CPROVER_return_value) == rec_norder(a, b, (int)n))
  __CPROVER_assigns();
void verif_inv_strncmp(const char *ra, const char *rb, int left, const char *a, const char *b, size_t n)
  __CPROVER_ensures(left >= 0)
  __CPROVER_ensures(rec_norder(ra, rb, left + 1) == rec_norder(a, b, (int)n));

/* the order is 0 exactly for names that are the same under the casemapping, and is antisymmetric */
void lemma_order_same(const char *a, const char *b)
  __CPROVER_ensures((rec_order(a, b) == 0) == (rec_same(a, b) != 0))
  __CPROVER_ensures(rec_order(a, b) == -rec_order(b, a))
  __CPROVER_assigns();
void lemma_order_trans(const char *a, const char *b, const char *c)
  __CPROVER_requires(rec_same(a, b) && rec_same(b, c))
  __CPROVER_ensures(rec_same(a, c))
  __CPROVER_assigns();

#include "ircd/ircd_string.c"

void lemma_order_same(const char *a, const char *b)
{
  if (spec_fold((unsigned char)*a) == spec_fold((unsigned char)*b) && *a)
    lemma_order_same(a + 1, b + 1);
}
void lemma_order_trans(const char *a, const char *b, const char *c)
{
  if (*a) lemma_order_trans(a + 1, b + 1, c + 1);
}
/* the tables themselves, for every char value */
void lemma_tables(char c)
  __CPROVER_ensures((unsigned char)ToLower(c) == spec_fold((unsigned char)c))
  __CPROVER_ensures((unsigned char)ToUpper(c) == spec_unfold((unsigned char)c))
  __CPROVER_ensures(ToLower(ToUpper(c)) == ToLower(c))
  __CPROVER_assigns();
void lemma_tables(char c) { }
