/* C13: OPMODE, CLEARMODE by an operator */
#include "c13_env.h"
#include "s_conf.h"
const char *uf_quarantine(const char *name);
const char *find_quarantine(const char *chname)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_quarantine(chname) != 0))
  __CPROVER_assigns();
int ghost_forced;
struct Channel *ghost_forced_on;
int mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr, struct Channel *chptr, int parc, char *parv[], unsigned int flags, struct Membership *member)
  __CPROVER_requires((flags & (MODE_PARSE_SET | MODE_PARSE_FORCE)) == (MODE_PARSE_SET | MODE_PARSE_FORCE) && !(flags & MODE_PARSE_BOUNCE) && mbuf && !member)
  __CPROVER_ensures(ghost_forced == __CPROVER_old(ghost_forced) + 1 && ghost_forced_on == chptr)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_forced, ghost_forced_on);
void modebuf_init(struct ModeBuf *mbuf, struct Client *source, struct Client *connect, struct Channel *chan, unsigned int dest)
  __CPROVER_ensures(1)
  __CPROVER_assigns(*mbuf);
static char *spec_name(char *p) { return *p == '!' ? p + 1 : p; }
static struct Channel *spec_target(char *p)
{
  char *n = spec_name(p);
  return *n == '#' || *n == '&' ? uf_channel(n) : (struct Channel *)0;
}
static int spec_may_force(struct Client *s, char *p)
{
  char *n = spec_name(p);
  struct Channel *ch = spec_target(p);
  if (!uf_feature(FEAT_CONFIG_OPERCMDS) || !ch) return 0;
  if (!SPEC_PRIV(s, *n == '&' ? PRIV_LOCAL_OPMODE : PRIV_OPMODE)) return 0;
  return *p == '!' ? SPEC_PRIV(s, *n == '&' ? PRIV_FORCE_LOCAL_OPMODE : PRIV_FORCE_OPMODE) != 0 : !uf_quarantine(ch->chname);
}
int mo_opmode(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(OPER_HANDLER_REQ(cptr, sptr) && ghost_forced == 0 && (parc < 2 || (parv[1] && parv[1] + 1)))
  __CPROVER_ensures(ghost_forced == verif_old_int(parc >= 3 && spec_may_force(sptr, parv[1])))
  __CPROVER_ensures(!ghost_forced || ghost_forced_on == verif_old_ptr(spec_target(parv[1])))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_forced, ghost_forced_on);
#ifndef CLEAR
#include "ircd/m_opmode.c"
#endif
