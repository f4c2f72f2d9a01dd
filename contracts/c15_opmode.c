/* C15: services making and unmaking operators (OPMODE with a user) */
#include "c13_env.h"
#undef SPEC_PRIV
#include "c15_env.h"
struct ConfItem *uf_uworld(struct SLink *confs, const char *server);
int uf_differ_exact(const char *a, const char *b);
int strcmp(const char *a, const char *b)
  __CPROVER_ensures(__CPROVER_return_value == uf_differ_exact(a, b))
  __CPROVER_assigns();
struct ConfItem *find_conf_byhost(struct SLink *lp, const char *host, int statmask)
  __CPROVER_requires(statmask == CONF_UWORLD)
  __CPROVER_ensures(__CPROVER_return_value == uf_uworld(lp, host))
  __CPROVER_assigns();
void det_confs_butmask(struct Client *cptr, int mask)
  __CPROVER_ensures(1)
  __CPROVER_assigns(cptr->cli_connect->con_confs);
void set_snomask(struct Client *cptr, unsigned int newmask, int what)
  __CPROVER_ensures(1)
  __CPROVER_assigns(cptr->cli_connect->con_snomask);
int ghost_hidden;
int hide_hostmask(struct Client *cptr, unsigned int flag)
  __CPROVER_requires(flag == FLAG_HIDDENHOST)
  __CPROVER_ensures(ghost_hidden == __CPROVER_old(ghost_hidden) + 1)
  __CPROVER_assigns(ghost_hidden);
int ghost_umode;
void send_umode_out(struct Client *cptr, struct Client *sptr, struct Flags *old, int prop)
  __CPROVER_ensures(ghost_umode == __CPROVER_old(ghost_umode) + 1)
  __CPROVER_assigns(ghost_umode);
int ghost_forced;
struct Channel *ghost_forced_on;
int mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr, struct Channel *chptr, int parc, char *parv[], unsigned int flags, struct Membership *member)
  __CPROVER_requires((flags & (MODE_PARSE_SET | MODE_PARSE_FORCE)) == (MODE_PARSE_SET | MODE_PARSE_FORCE) && !(flags & MODE_PARSE_BOUNCE) && mbuf && !member)
  __CPROVER_ensures(ghost_forced == __CPROVER_old(ghost_forced) + 1 && ghost_forced_on == chptr)
  __CPROVER_assigns(ghost_forced, ghost_forced_on);
void modebuf_init(struct ModeBuf *mbuf, struct Client *source, struct Client *connect, struct Channel *chan, unsigned int dest)
  __CPROVER_ensures(1)
  __CPROVER_assigns(*mbuf);
struct Client *ghost_d;              /* the user the first parameter names */
static int spec_is(const char *a, const char *word) { return uf_differ_exact(a, word) == 0; }
#include "ircd/m_opmode.c"
/* the user an OPMODE of a user names; it comes from a server */
static struct Client *spec_d(struct Client *s, int parc, char *parv[])
{
  return parc >= 3 && parv[1][0] != '#' && parv[1][0] != '&' && spec_is_server(s) ? uf_numuser(parv[1]) : (struct Client *)0;
}
static int spec_user_form(struct Client *s, int parc, char *parv[]) { return parc >= 3 && parv[1][0] != '#' && parv[1][0] != '&' && spec_is_server(s); }
/* may this server make and unmake operators: the link lists it as U-lined with that right */
static int spec_made(struct Client *c, struct Client *s, int parc, char *parv[], const char *sign, int is)
{
  struct Client *d = spec_d(s, parc, parv);
  struct ConfItem *a;
  if (!d || !spec_local(d)) return 0;
  a = uf_uworld(c->cli_connect->con_confs, s->cli_name);
  return a && (a->flags & CONF_UWORLD_OPER) && spec_is(parv[2], sign) && (SPEC_FLAG(d, FLAG_OPER) != 0) == is;
}
#define MADE verif_old_int(spec_made(cptr, sptr, parc, parv, "+o", 0))
#define UNMADE verif_old_int(spec_made(cptr, sptr, parc, parv, "-o", 1))
#define D ((struct Client *)verif_old_ptr(spec_d(sptr, parc, parv)))
struct Client *ghost_x;              /* any client */
static int spec_nul(char *p) { return p == 0 || *p == 0; }
int ms_opmode(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_forced == 0 && ghost_serv_n == 0 && spec_is_server(cptr) && spec_local(cptr) && (parc < 3 || (parv[1] && parv[2])))
  __CPROVER_requires(ghost_p >= 0 && ghost_p < PRIV_LAST_PRIV && !(spec_is(parv[2], "+o") && spec_is(parv[2], "-o")))
  __CPROVER_ensures(!MADE || (spec_globop(D) && D->cli_connect->con_handler == OPER_HANDLER && (SPEC_PRIV(D, ghost_p) != 0) == verif_old_int(spec_want_priv(0, ghost_p))))
  __CPROVER_ensures(!UNMADE || (!spec_globop(D) && D->cli_connect->con_handler == CLIENT_HANDLER && !SPEC_PRIV(D, ghost_p)))
  __CPROVER_ensures((MADE && ghost_x == D) || (UNMADE && ghost_x == D) || (SPEC_FLAG(ghost_x, FLAG_OPER) != 0) == verif_old_int(SPEC_FLAG(ghost_x, FLAG_OPER) != 0))
  __CPROVER_ensures(ghost_serv_n == verif_old_int(spec_d(sptr, parc, parv) && !spec_local(spec_d(sptr, parc, parv))))
  __CPROVER_ensures(ghost_forced == verif_old_int(parc >= 3 && parv[1][0] != '&' && parv[1][0] != 0 && !spec_user_form(sptr, parc, parv) && uf_channel(parv[1]) != 0))
  __CPROVER_ensures(!ghost_forced || ghost_forced_on == uf_channel(verif_old_ptr(parv[1])))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_forced, ghost_forced_on, ghost_umode, ghost_hidden, REC_SERV);
