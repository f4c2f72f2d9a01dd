/* C13: JUPE */
#include "c13_env.h"
#include "jupe.h"
/* the last change: 1 new jupe, 2 activated, 3 deactivated; whether a jupe was dropped */
int ghost_jupe, ghost_jupe_free;
unsigned int ghost_jupe_flags;
struct Jupe *ghost_jupe_ptr;
struct Jupe *uf_jupe(const char *name);
#define REC_JUPE ghost_jupe, ghost_jupe_flags, ghost_jupe_ptr
struct Client *find_match_server(char *mask)
  __CPROVER_ensures(__CPROVER_return_value == uf_server(mask))
  __CPROVER_assigns();
struct Jupe *jupe_find(char *server)
  __CPROVER_ensures(__CPROVER_return_value == uf_jupe(server))
  __CPROVER_assigns();
void jupe_free(struct Jupe *jupe)
  __CPROVER_ensures(ghost_jupe_free == 1)
  __CPROVER_assigns(ghost_jupe_free);
int jupe_add(struct Client *cptr, struct Client *sptr, char *server, char *reason, time_t expire, time_t lastmod, unsigned int flags)
  __CPROVER_ensures(ghost_jupe == 1 && ghost_jupe_flags == flags && ghost_jupe_ptr == 0)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_JUPE);
int jupe_activate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe, time_t lastmod, unsigned int flags)
  __CPROVER_ensures(ghost_jupe == 2 && ghost_jupe_flags == flags && ghost_jupe_ptr == jupe)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_JUPE);
int jupe_deactivate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe, time_t lastmod, unsigned int flags)
  __CPROVER_ensures(ghost_jupe == 3 && ghost_jupe_flags == flags && ghost_jupe_ptr == jupe)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_JUPE);
/* where a change is asked for: 0 nothing valid, 1 this server, 2 another server, 3 everywhere */
static int spec_jupe_where(int parc, char *parv[])
{
  struct Client *t;
  if (parc < 4 || (*parv[1] != '+' && *parv[1] != '-')) return 0;
  if (parc == 4) return 1;
  if (parv[2][0] == '*' && !parv[2][1]) return 3;
  t = uf_server(parv[2]);
  return !t ? 0 : spec_is_me(t) ? 1 : 2;
}
static int spec_jupe_allowed(struct Client *s, int parc, char *parv[])
{
  int w = spec_jupe_where(parc, parv);
  return w && uf_feature(FEAT_CONFIG_OPERCMDS) && SPEC_PRIV(s, w == 1 ? PRIV_LOCAL_JUPE : PRIV_JUPE);
}
static int spec_jupe_fresh(struct Jupe *j, int where) { return !j || ((j->ju_flags & JUPE_LOCAL) && where == 3); }
int mo_jupe(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(OPER_HANDLER_REQ(cptr, sptr) && (parc < 3 || parv[2]) && ghost_jupe == 0 && ghost_jupe_free == 0 && ghost_one_n == 0)
  __CPROVER_ensures(ghost_jupe == verif_old_int(!spec_jupe_allowed(sptr, parc, parv) || spec_jupe_where(parc, parv) == 2 ? 0 :
    spec_jupe_fresh(uf_jupe(parv[1] + 1), spec_jupe_where(parc, parv)) ? 1 : *parv[1] == '+' ? 2 : 3))
  __CPROVER_ensures(!ghost_jupe || (ghost_jupe_flags & JUPE_ACTIVE) == verif_old_int(*parv[1] == '+' ? JUPE_ACTIVE : 0))
  __CPROVER_ensures(!ghost_jupe || (ghost_jupe_flags & JUPE_LOCAL) == verif_old_int(spec_jupe_where(parc, parv) == 1 ? JUPE_LOCAL : 0))
  __CPROVER_ensures(ghost_jupe < 2 || ghost_jupe_ptr == verif_old_ptr(uf_jupe(parv[1] + 1)))
  __CPROVER_ensures(ghost_jupe_free == verif_old_int(spec_jupe_allowed(sptr, parc, parv) && spec_jupe_where(parc, parv) == 3 && uf_jupe(parv[1] + 1) && (uf_jupe(parv[1] + 1)->ju_flags & JUPE_LOCAL) ? 1 : 0))
  __CPROVER_ensures(ghost_one_n == verif_old_int(spec_jupe_allowed(sptr, parc, parv) && spec_jupe_where(parc, parv) == 2))
  __CPROVER_ensures(!ghost_one_n || (ghost_one_from == sptr && ghost_one_to == verif_old_ptr(uf_server(parv[2])) && ghost_one_tok0 == 'J'))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_JUPE, ghost_jupe_free, REC_ONE);
#include "ircd/m_jupe.c"
