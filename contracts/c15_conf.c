/* C15: which Operator block an OPER makes use of, and when its class has room */
#include "c15_env.h"
#include "match.h"
#include "res.h"
int uf_differ(const char *a, const char *b);
int uf_nomatch(const char *mask, const char *text);
int uf_ipmask(const void *ip, const void *mask, int bits);
int ircd_strcmp(const char *a, const char *b)
  __CPROVER_ensures(__CPROVER_return_value == uf_differ(a, b))
  __CPROVER_assigns();
int match(const char *mask, const char *name)
  __CPROVER_ensures(__CPROVER_return_value == uf_nomatch(mask, name))
  __CPROVER_assigns();
int ipmask_check(const struct irc_in_addr *addr, const struct irc_in_addr *mask, unsigned char bits)
  __CPROVER_ensures(__CPROVER_return_value == uf_ipmask(addr, mask, bits))
  __CPROVER_assigns();
#include "ircd/s_conf.c"
/* may this client use this block: name, user name mask, host or address mask, and for an operator block room in its class */
static int spec_usable(struct ConfItem *a, const char *name, struct Client *c, int mask)
{
  if (!(a->status & mask) || !a->name || !a->host || uf_differ(a->name, name)) return 0;
  if (a->username && uf_nomatch(a->username, c->cli_username)) return 0;
  if (a->addrbits < 0 ? uf_nomatch(a->host, c->cli_connect->con_sockhost) : !uf_ipmask(&c->cli_ip, &a->address.addr, (unsigned char)a->addrbits)) return 0;
  return !(a->status & CONF_OPERATOR) || a->conn_class->max_links == 0 || a->clients < a->conn_class->max_links;
}
static struct ConfItem *rec_conf(struct ConfItem *a, const char *name, struct Client *c, int mask)
{
  if (!a) return (struct ConfItem *)0;
  if (spec_usable(a, name, c, mask)) return a;
  return rec_conf(a->next, name, c, mask);
}
struct ConfItem *ghost_conf;
struct ConfItem *find_conf_exact(const char *name, struct Client *cptr, int statmask)
  __CPROVER_requires(ghost_conf == rec_conf(GlobalConfList, name, cptr, statmask))
  __CPROVER_ensures(__CPROVER_return_value == ghost_conf)
  __CPROVER_assigns();
void verif_inv_find_conf_exact(struct ConfItem *tmp, const char *name, struct Client *cptr, int statmask)
  __CPROVER_ensures(rec_conf(tmp, name, cptr, statmask) == ghost_conf);
static int rec_linked(struct SLink *lp, struct ConfItem *a)
{
  if (!lp) return 0;
  if (lp->value.aconf == a) return 1;
  return rec_linked(lp->next, a);
}
int ghost_linked;
static int is_attached(struct ConfItem *aconf, struct Client *cptr)
  __CPROVER_requires(ghost_linked == rec_linked(cptr->cli_connect->con_confs, aconf))
  __CPROVER_ensures((__CPROVER_return_value != 0) == ghost_linked)
  __CPROVER_assigns();
void verif_inv_is_attached(struct SLink *lp, struct ConfItem *aconf)
  __CPROVER_ensures(rec_linked(lp, aconf) == ghost_linked);
struct SLink ghost_link;              /* an object of its own */
struct SLink *make_link(void)
  __CPROVER_ensures(__CPROVER_return_value == &ghost_link)
  __CPROVER_assigns();
static int spec_full(struct ConfItem *a)
{
  return (a->status & (CONF_OPERATOR | CONF_CLIENT)) && a->conn_class->max_links > 0 && a->conn_class->ref_count >= a->conn_class->max_links;
}
enum AuthorizationCheckResult attach_conf(struct Client *cptr, struct ConfItem *aconf)
  __CPROVER_requires(ghost_linked == rec_linked(cptr->cli_connect->con_confs, aconf) && aconf->conn_class && cptr->cli_connect->con_client == cptr)
  __CPROVER_requires((char *)&cptr->cli_connect->con_confs + 8 <= (char *)&ghost_link || (char *)&ghost_link + 24 <= (char *)&cptr->cli_connect->con_confs)
  __CPROVER_ensures((__CPROVER_return_value == ACR_OK) == verif_old_int(!ghost_linked && !(aconf->status & CONF_ILLEGAL) && !spec_full(aconf)))
  __CPROVER_ensures(__CPROVER_return_value != ACR_OK || (cptr->cli_connect->con_confs->value.aconf == aconf && cptr->cli_connect->con_confs->next == verif_old_ptr(cptr->cli_connect->con_confs)))
  __CPROVER_ensures(__CPROVER_return_value != ACR_OK || (aconf->clients == verif_old_int(aconf->clients + 1) && aconf->conn_class->ref_count == verif_old_int(aconf->conn_class->ref_count + ((aconf->status & CONF_CLIENT_MASK) != 0))))
  __CPROVER_ensures(__CPROVER_return_value == ACR_OK || (cptr->cli_connect->con_confs == verif_old_ptr(cptr->cli_connect->con_confs) && aconf->clients == verif_old_int(aconf->clients)))
  __CPROVER_assigns(ghost_link.next, ghost_link.value.aconf, cptr->cli_connect->con_confs, aconf->clients, aconf->conn_class->ref_count, cptr->cli_connect->con_max_flood, cptr->cli_connect->con_max_sendq);
