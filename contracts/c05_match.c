/* C05: masks and address blocks (match.c): what match() and ipmask_check() decide */
#include "config.h"
#include "verif.h"
#include "res.h"
#include "spec_cidr.h"
#include "spec_str.h"
#include "ircd/chattr.tab.c"

int ipmask_check(const struct irc_in_addr *addr, const struct irc_in_addr *mask, unsigned char bits)
  __CPROVER_requires(bits <= 128)
  __CPROVER_ensures((__CPROVER_return_value != 0) == spec_prefix_eq(addr, mask, bits))
  __CPROVER_assigns();

/* the mask m covers the text n: * stands for any text, ? for any one character, \x for just x, and
 * anything else for itself under the casemapping; a backslash at the very end matches nothing */
static int rec_any(const char *m, const char *n);
#define IFF(a, b) (((a) != 0) == ((b) != 0))
static int rec_m(const char *m, const char *n)
{
  if (*m == 0) return *n == 0;
  if (*m == '*') return rec_any(m + 1, n);
  if (*n == 0) return 0;
  if (*m == '?') return rec_m(m + 1, n + 1);
  if (*m == '\\') return m[1] == *n && rec_m(m + 2, n + 1);
  return spec_fold((unsigned char)*m) == spec_fold((unsigned char)*n) && rec_m(m + 1, n + 1);
}
/* the mask covers some ending of the text; the first such ending */
static int rec_any(const char *m, const char *n)
{
  if (rec_m(m, n)) return 1;
  if (*n == 0) return 0;
  return rec_any(m, n + 1);
}
static const char *rec_from(const char *m, const char *n)
{
  if (rec_m(m, n)) return n;
  if (*n == 0) return (const char *)0;
  return rec_from(m, n + 1);
}
static const char *rec_end(const char *s)
{
  if (*s == 0) return s;
  return rec_end(s + 1);
}
int ghost_t;                                    /* the mask covers the text */
const char *ghost_mend, *ghost_nend;            /* where mask and text end */
const char *ghost_j; unsigned long ghost_d;     /* since the last *: the first place where the rest of the mask fits, and how far beyond the one being tried */
#define U(p) ((unsigned long)(p))
#define INMASK(m) (U(mask) <= U(m) && U(m) <= U(ghost_mend) && rec_end(m) == ghost_mend)
#define INTEXT(n) ((n) && U(n) <= U(ghost_nend) && rec_end(n) == ghost_nend)
#define PLACE(n) ((n) + ghost_d)                /* where we would be in the text if the mask were tried at ghost_j */
#define PLAIN(ch) ((ch) != 0 && (ch) != '*' && (ch) != '?')
/* what the last * left to try: m_tmp somewhere from n_tmp on, first at ghost_j */
#define OPEN1 (PLAIN(*m_tmp) && IFF(ghost_t, rec_any(m_tmp, n_tmp)) && INTEXT(n_tmp) && INMASK(m_tmp))
#define OPEN2 (!ghost_j ? !ghost_t : ghost_t && U(ghost_j) >= U(n_tmp) && U(ghost_j) <= U(ghost_nend) && rec_m(m_tmp, ghost_j))
#define TRYING(pre) \
  __CPROVER_ensures(pre || (m_tmp == mask ? IFF(ghost_t, rec_m(m, n)) : !rec_m(m, n) || ghost_t)) \
  __CPROVER_ensures(pre || m_tmp == mask || *n_tmp || (n == n_tmp && m == m_tmp && *m != '\\')) \
  __CPROVER_ensures(pre || m_tmp == mask || rec_m(m, n) || !rec_m(m_tmp, n_tmp)) \
  __CPROVER_ensures(pre || m_tmp == mask || !ghost_j || ghost_d <= U(ghost_nend) - U(n)) \
  __CPROVER_ensures(pre || m_tmp == mask || !ghost_j || rec_m(m, PLACE(n)))
int match(const char *mask, const char *name)
  __CPROVER_requires(IFF(ghost_t, rec_m(mask, name)) && ghost_mend == rec_end(mask) && ghost_nend == rec_end(name))
  __CPROVER_requires(*ghost_mend == 0 && *ghost_nend == 0 && U(mask) <= U(ghost_mend) && name && U(name) <= U(ghost_nend))
  __CPROVER_ensures((__CPROVER_return_value == 0) == (ghost_t != 0))
  __CPROVER_assigns(ghost_j, ghost_d);
void verif_inv_match(const char *mask, const char *m, const char *n, const char *m_tmp, const char *n_tmp)
  __CPROVER_ensures(INMASK(m) && INTEXT(n))
  __CPROVER_ensures(m_tmp == mask || OPEN1)
  __CPROVER_ensures(m_tmp == mask || OPEN2)
  TRYING(0);
void verif_inv_match_run(const char *mask, const char *m, const char *n, const char *m_tmp, const char *n_tmp, int star_p)
  __CPROVER_ensures(INMASK(m) && INTEXT(n))
  __CPROVER_ensures(!star_p || (U(m) > U(mask) && IFF(ghost_t, rec_any(m, n)) && (m_tmp == mask || *n_tmp)))
  __CPROVER_ensures(m_tmp == mask || OPEN1)
  __CPROVER_ensures(m_tmp == mask || OPEN2)
  TRYING(star_p);
void verif_inv_match_scan(const char *m, const char *n, const char *n_tmp)
  __CPROVER_ensures(U(n_tmp) <= U(n) && INTEXT(n) && INTEXT(n_tmp))
  __CPROVER_ensures(IFF(rec_any(m, n_tmp), rec_any(m, n)) && (n == n_tmp || !rec_m(m, n_tmp)));
/* lemmas in use */
#define LEMMA_STAR(m, n) (*(m) != '*' || IFF(rec_any(m, n), rec_any((m) + 1, n)))
#define LEMMA_ONE(m, n) (*(m) != '?' || IFF(rec_any(m, n), *(n) && rec_any((m) + 1, (n) + 1)))
#define LEMMA_ALL(m, n) (*(m) != 0 || rec_any(m, n))
#define LEMMA_LONE(m, n) (*(m) != '\\' || (m)[1] != 0 || !rec_any(m, n))
#define LEMMA_BACK(m, n, p) (!(rec_any(m, p) && U(n) <= U(p) && U(p) <= U(ghost_nend) && rec_end(n) == ghost_nend) || rec_any(m, n))
#define LEMMA_FROM(m, n, j) ((j) == rec_from(m, n) && ((j) ? rec_any(m, n) && rec_m(m, j) && U(j) >= U(n) && U(j) <= U(ghost_nend) : !rec_any(m, n)))
void verif_at_match_run(const char *m, const char *n)
  __CPROVER_ensures(LEMMA_STAR(m, n) && LEMMA_ONE(m, n) && LEMMA_ALL(m, n) && LEMMA_LONE(m, n) && LEMMA_BACK(m + 1, n, PLACE(n)))
  __CPROVER_assigns();
void verif_at_match_star(const char *m, const char *n)
  __CPROVER_requires(INTEXT(n))
  __CPROVER_ensures(LEMMA_FROM(m, n, ghost_j) && ghost_d == U(ghost_j) - U(n))
  __CPROVER_assigns(ghost_j, ghost_d);
void verif_at_match_back(const char *n)
  __CPROVER_ensures(ghost_d == U(ghost_j) - U(n))
  __CPROVER_assigns(ghost_d);
void lemma_star(const char *m, const char *n)
  __CPROVER_ensures(LEMMA_STAR(m, n) && LEMMA_ONE(m, n) && LEMMA_ALL(m, n) && LEMMA_LONE(m, n))
  __CPROVER_assigns();
void lemma_back(const char *m, const char *n, const char *p)
  __CPROVER_requires(*ghost_nend == 0)
  __CPROVER_ensures(LEMMA_BACK(m, n, p))
  __CPROVER_assigns();
void lemma_from(const char *m, const char *n, const char *j)
  __CPROVER_requires(*ghost_nend == 0 && INTEXT(n))
  __CPROVER_ensures(j != rec_from(m, n) || LEMMA_FROM(m, n, j))
  __CPROVER_assigns();
#include "ircd/match.c"
void lemma_star(const char *m, const char *n) { if (*n) lemma_star(m, n + 1); }
void lemma_back(const char *m, const char *n, const char *p) { if (n != p && *n) lemma_back(m, n + 1, p); }
void lemma_from(const char *m, const char *n, const char *j) { if (*n) lemma_from(m, n + 1, j); }
