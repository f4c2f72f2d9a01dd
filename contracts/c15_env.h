/* C15: who is an operator, and with which privileges */
#include "config.h"
#include "verif.h"
#include "class.h"
#include "client.h"
#include "ircd.h"
#include "ircd_features.h"
#include "ircd_string.h"
#include "list.h"
#include "s_conf.h"
#include "s_user.h"
#include "send.h"
#include "struct.h"
#include "spec_client.h"
#define SPEC_BIT(s, p) (((s)->bits[(p) / 64] >> ((p) % 64)) & 1ul)
#define SPEC_PRIV(c, p) SPEC_BIT(&(c)->cli_connect->con_privs, p)
int ghost_p;                         /* any privilege */
struct ConnectionClass *uf_remote_class(void);
static int spec_default(int global, int p)
{
  if (global) return p != PRIV_WALK_LCHAN && p != PRIV_SET && p != PRIV_BADCHAN && p != PRIV_LOCAL_BADCHAN && p != PRIV_APASS_OPMODE;
  return p == PRIV_CHAN_LIMIT || p == PRIV_MODE_LCHAN || p == PRIV_SHOW_INVIS || p == PRIV_SHOW_ALL_INVIS || p == PRIV_LOCAL_KILL || p == PRIV_REHASH || p == PRIV_LOCAL_GLINE
    || p == PRIV_LOCAL_JUPE || p == PRIV_LOCAL_OPMODE || p == PRIV_WHOX || p == PRIV_DISPLAY || p == PRIV_FORCE_LOCAL_OPMODE;
}
/* what the configuration says about privilege p: the operator block, else its class, else the defaults for global or local operators */
static int spec_configured(struct ConfItem *oper, struct ConnectionClass *cl, int p)
{
  int global;
  if (oper && SPEC_BIT(&oper->privs_dirty, PRIV_PROPAGATE)) global = SPEC_BIT(&oper->privs, PRIV_PROPAGATE) != 0;
  else global = !cl || SPEC_BIT(&cl->privs, PRIV_PROPAGATE) != 0;
  if (oper && SPEC_BIT(&oper->privs_dirty, p)) return SPEC_BIT(&oper->privs, p) != 0;
  if (cl && SPEC_BIT(&cl->privs_dirty, p)) return SPEC_BIT(&cl->privs, p) != 0;
  return spec_default(global, p);
}
/* neither the block nor its class says whether the operator is global: a configuration error */
static int spec_undecided(struct ConfItem *oper, struct ConnectionClass *cl)
{
  return !(oper && SPEC_BIT(&oper->privs_dirty, PRIV_PROPAGATE)) && cl && !SPEC_BIT(&cl->privs_dirty, PRIV_PROPAGATE);
}
static int spec_want_priv(struct ConfItem *oper, int p)
{
  struct ConnectionClass *cl = oper ? oper->conn_class : uf_remote_class();
  if (spec_undecided(oper, cl)) return 0;
  if (p == PRIV_DISPLAY && spec_configured(oper, cl, PRIV_PROPAGATE)) return 1;
  if ((p == PRIV_KILL || p == PRIV_GLINE || p == PRIV_JUPE || p == PRIV_OPMODE || p == PRIV_BADCHAN) && !spec_configured(oper, cl, PRIV_PROPAGATE)) return 0;
  return spec_configured(oper, cl, p);
}
static int spec_apart(struct Privs *a, struct Privs *b) { return !b || a + 1 <= b || b + 1 <= a; }
static int spec_apart_class(struct Privs *a, struct ConnectionClass *cl) { return !cl || (spec_apart(a, &cl->privs) && spec_apart(a, &cl->privs_dirty)); }
static int spec_oper_conf_ok(struct ConfItem *oper) { return !oper || oper->conn_class != 0; }
void client_set_privs(struct Client *client, struct ConfItem *oper, int forceOper)
  __CPROVER_requires(ghost_p >= 0 && ghost_p < PRIV_LAST_PRIV && spec_oper_conf_ok(oper))
  __CPROVER_ensures(!spec_local(client) || (SPEC_PRIV(client, ghost_p) != 0) == verif_old_int(spec_anyop(client) && (oper || forceOper) && spec_want_priv(oper, ghost_p)))
#ifdef PRIVS_INV
  __CPROVER_requires(PRIVS_INV(ghost_p) && PRIVS_INV(PRIV_PROPAGATE)) __CPROVER_ensures(PRIVS_INV(ghost_p) && PRIVS_INV(PRIV_PROPAGATE))
  /* the privileges of a connection, of the configuration and the defaults are different objects */
  __CPROVER_requires(spec_apart(&client->cli_connect->con_privs, oper ? &oper->privs : 0) && spec_apart(&client->cli_connect->con_privs, oper ? &oper->privs_dirty : 0))
  __CPROVER_requires(spec_apart_class(&client->cli_connect->con_privs, oper ? oper->conn_class : uf_remote_class()))
  __CPROVER_requires(spec_apart(&client->cli_connect->con_privs, &privs_global) && spec_apart(&client->cli_connect->con_privs, &privs_local))
  __CPROVER_requires(spec_apart(&privs_global, oper ? &oper->privs : 0) && spec_apart(&privs_global, oper ? &oper->privs_dirty : 0) && spec_apart_class(&privs_global, oper ? oper->conn_class : uf_remote_class()))
  __CPROVER_requires(spec_apart(&privs_local, oper ? &oper->privs : 0) && spec_apart(&privs_local, oper ? &oper->privs_dirty : 0) && spec_apart_class(&privs_local, oper ? oper->conn_class : uf_remote_class()))
  __CPROVER_assigns(privs_global, privs_local, privs_defaults_set)
#else
  __CPROVER_ensures(!spec_local(client) || (SPEC_PRIV(client, PRIV_PROPAGATE) != 0) == verif_old_int(spec_anyop(client) && (oper || forceOper) && spec_want_priv(oper, PRIV_PROPAGATE)))
#endif
  __CPROVER_assigns(client->cli_connect->con_client == client: client->cli_connect->con_privs.bits[0]);
