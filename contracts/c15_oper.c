/* C15: OPER from a user and from a server */
#include "c15_env.h"
#include "ircd_crypt.h"
#include "s_misc.h"
#include "querycmds.h"
int uf_differ(const char *a, const char *b);
int uf_differ_exact(const char *a, const char *b);
char *uf_crypt(const char *key, const char *salt);
struct ConfItem *uf_conf_exact(const char *name, struct Client *c, int mask);
int ircd_strcmp(const char *a, const char *b)
  __CPROVER_ensures(__CPROVER_return_value == uf_differ(a, b))
  __CPROVER_assigns();
int strcmp(const char *a, const char *b)
  __CPROVER_ensures(__CPROVER_return_value == uf_differ_exact(a, b))
  __CPROVER_assigns();
char *ircd_crypt(const char *key, const char *salt)
  __CPROVER_ensures(__CPROVER_return_value == uf_crypt(key, salt))
  __CPROVER_assigns();
struct ConfItem *find_conf_exact(const char *name, struct Client *cptr, int statmask)
  __CPROVER_requires(statmask == CONF_OPERATOR)
  __CPROVER_ensures(__CPROVER_return_value == uf_conf_exact(name, cptr, statmask))
  __CPROVER_ensures(!__CPROVER_return_value || ((__CPROVER_return_value->status & CONF_OPERATOR) && __CPROVER_return_value->conn_class))
  __CPROVER_assigns();
enum AuthorizationCheckResult ghost_attach;
struct ConfItem *ghost_attached;
int ghost_attach_n;
enum AuthorizationCheckResult attach_conf(struct Client *cptr, struct ConfItem *aconf)
  __CPROVER_ensures(__CPROVER_return_value == ghost_attach && ghost_attached == aconf && ghost_attach_n == __CPROVER_old(ghost_attach_n) + 1)
  __CPROVER_assigns(cptr->cli_connect->con_confs, ghost_attached, ghost_attach_n);
int ghost_umode, ghost_umode_prop;
void send_umode_out(struct Client *cptr, struct Client *sptr, struct Flags *old, int prop)
  __CPROVER_ensures(ghost_umode == __CPROVER_old(ghost_umode) + 1 && ghost_umode_prop == (prop != 0))
  __CPROVER_assigns(ghost_umode, ghost_umode_prop);
void set_snomask(struct Client *cptr, unsigned int newmask, int what)
  __CPROVER_ensures(1)
  __CPROVER_assigns(cptr->cli_connect->con_snomask);
int ghost_serv_n;
void sendcmdto_serv_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, const char *pattern, ...)
  __CPROVER_ensures(ghost_serv_n == __CPROVER_old(ghost_serv_n) + 1)
  __CPROVER_assigns(ghost_serv_n);
static int spec_password(const char *given, const char *passwd)
{
  char *c;
  if (!given || !passwd) return 0;
  c = uf_crypt(given, passwd);
  return c != 0 && uf_differ_exact(c, passwd) == 0;
}
int oper_password_match(const char *to_match, const char *passwd)
  __CPROVER_ensures((__CPROVER_return_value != 0) == spec_password(to_match, passwd))
  __CPROVER_assigns();
static int spec_text(const char *s) { return s && *s; }
/* the Operator block this OPER makes use of, when everything it asks for is met */
static int spec_oper_ok(struct Client *c, int parc, char *parv[])
{
  struct ConfItem *a;
  if (parc <= 2 || !spec_text(parv[1]) || !spec_text(parv[2])) return 0;
  a = uf_conf_exact(parv[1], c, CONF_OPERATOR);
  if (!a || (a->status & CONF_ILLEGAL)) return 0;
  if (spec_text(a->tls_fingerprint) && uf_differ(c->cli_tls_fingerprint, a->tls_fingerprint)) return 0;
  return spec_password(parv[2], a->passwd) && ghost_attach == ACR_OK;
}
#define OPER_GHOSTS ghost_attached, ghost_attach_n, ghost_umode, ghost_umode_prop
#define BECAME verif_old_int(spec_oper_ok(sptr, parc, parv))
#define ITS_CONF uf_conf_exact(verif_old_ptr(parv[1]), sptr, CONF_OPERATOR)
int m_oper(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(cptr == sptr && spec_my_user(sptr) && !spec_anyop(sptr) && sptr->cli_connect->con_handler == CLIENT_HANDLER && ghost_attach_n == 0 && ghost_umode == 0 && ghost_p >= 0 && ghost_p < PRIV_LAST_PRIV)
  __CPROVER_ensures((sptr->cli_connect->con_handler == OPER_HANDLER) == BECAME && spec_anyop(sptr) == BECAME)
  __CPROVER_ensures(!BECAME || (SPEC_PRIV(sptr, ghost_p) != 0) == verif_old_int(spec_oper_ok(sptr, parc, parv) && spec_want_priv(uf_conf_exact(parv[1], sptr, CONF_OPERATOR), ghost_p)))
  __CPROVER_ensures(!BECAME || (spec_globop(sptr) == (SPEC_PRIV(sptr, PRIV_PROPAGATE) != 0) && spec_locop(sptr) == !spec_globop(sptr)))
  __CPROVER_ensures(!BECAME || (ghost_attached == verif_old_ptr(spec_oper_ok(sptr, parc, parv) ? uf_conf_exact(parv[1], sptr, CONF_OPERATOR) : 0) && ghost_umode == 1 && ghost_umode_prop == spec_globop(sptr)))
  __CPROVER_ensures(BECAME || (sptr->cli_flags.bits[0] == __CPROVER_old(sptr->cli_flags.bits[0]) && (SPEC_PRIV(sptr, ghost_p) != 0) == verif_old_int(SPEC_PRIV(sptr, ghost_p) != 0) && ghost_umode == 0))
  __CPROVER_assigns(sptr->cli_flags, sptr->cli_connect->con_handler, sptr->cli_connect->con_snomask, sptr->cli_connect->con_max_sendq, sptr->cli_connect->con_max_flood, sptr->cli_connect->con_privs.bits[0], sptr->cli_connect->con_confs, UserStats, OPER_GHOSTS);
int ms_oper(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(spec_is_server(cptr) && parv[0])
  __CPROVER_ensures((SPEC_FLAG(sptr, FLAG_OPER) != 0) == verif_old_int(!spec_is_server(sptr) || SPEC_FLAG(sptr, FLAG_OPER) != 0))
  __CPROVER_ensures(ghost_serv_n == verif_old_int(ghost_serv_n + (!spec_is_server(sptr) && !SPEC_FLAG(sptr, FLAG_OPER))))
  __CPROVER_assigns(sptr->cli_flags, UserStats, ghost_serv_n);
#include "ircd/m_oper.c"
