/* C26: who is kept out when he connects, and who goes when the configuration is read anew */
#include "c26_env.h"
struct Gline *uf_gline(struct Client *c);
struct Gline *gline_lookup(struct Client *cptr, unsigned int flags)
  __CPROVER_requires(flags == 0)
  __CPROVER_ensures(__CPROVER_return_value == uf_gline(cptr))
  __CPROVER_assigns();
struct DenyConf *ghost_deny;
struct ConfItem *ghost_conf, *ghost_att; int ghost_res;
static int spec_denied(struct DenyConf *d, struct Client *c)
{
  if (d->usermask && uf_nomatch(d->usermask, c->cli_user->username)) return 0;
  if (d->realmask && uf_nomatch(d->realmask, c->cli_info)) return 0;
  if (d->bits) return uf_ipmask(&c->cli_ip, &d->address, d->bits) != 0;
  return !d->hostmask || !uf_nomatch(d->hostmask, c->cli_connect->con_sockhost);
}
static struct DenyConf *rec_deny(struct DenyConf *d, struct Client *c)
{
  if (!d) return (struct DenyConf *)0;
  if (spec_denied(d, c)) return d;
  return rec_deny(d->next, c);
}
/* the Client block: the first that fits */
static int spec_block(struct ConfItem *a, struct Client *c)
{
  if (a->status != CONF_CLIENT) return 0;
  if (a->address.port && a->address.port != c->cli_connect->con_listener->addr.port) return 0;
  if (a->username && uf_nomatch(a->username, c->cli_username)) return 0;
  if (a->host && uf_nomatch(a->host, c->cli_connect->con_sockhost)) return 0;
  return a->addrbits < 0 || uf_ipmask(&c->cli_ip, &a->address.addr, (unsigned char)a->addrbits);
}
static struct ConfItem *rec_block(struct ConfItem *a, struct Client *c)
{
  if (!a) return (struct ConfItem *)0;
  if (spec_block(a, c)) return a;
  return rec_block(a->next, c);
}
static int spec_stale(struct Client *c) { return c->cli_connect->con_wline && c->cli_connect->con_wline->stale; }
void verif_inv_find_kill(struct DenyConf *deny, struct Client *cptr)
  __CPROVER_ensures(rec_deny(deny, cptr) == ghost_deny);
void verif_inv_attach_iline(struct ConfItem *aconf, struct Client *cptr)
  __CPROVER_ensures(rec_block(aconf, cptr) == ghost_conf);
int uf_banned(struct Client *c);
void verif_inv_rehash(int i, struct Client *cptr)
  __CPROVER_ensures(LISTED && i >= 0 && (!ghost_out || uf_banned(ghost_u) || spec_stale(ghost_u)) && (i <= ghost_fd || ghost_out == (uf_banned(ghost_u) || spec_stale(ghost_u))));
void verif_inv_rehash_flush(struct ConfItem **tmp)
  __CPROVER_ensures(LISTED && ghost_out == 0);
#ifdef REHASH
int find_kill(struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == uf_banned(cptr))
  __CPROVER_assigns();
#endif
#include "ircd/s_conf.c"
static void killcomment(struct Client *sptr, const char *filename)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
#ifndef REHASH
int find_kill(struct Client *cptr)
  __CPROVER_requires(cptr && (!cptr->cli_user || ghost_deny == rec_deny(denyConfList, cptr)))
  __CPROVER_ensures(__CPROVER_return_value == (!verif_old_int(cptr->cli_user != 0) ? 0 : ghost_deny ? -1 : !uf_feature(FEAT_DISABLE_GLINES) && uf_gline(cptr) ? -2 : 0))
  __CPROVER_assigns();
unsigned short uf_nr(struct Client *c);
unsigned short IPcheck_nr(struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == uf_nr(cptr))
  __CPROVER_assigns();
enum AuthorizationCheckResult attach_conf(struct Client *cptr, struct ConfItem *aconf)
  __CPROVER_requires(aconf == ghost_conf && ghost_att == 0)
  __CPROVER_ensures(ghost_att == aconf && __CPROVER_return_value == ghost_res)
  __CPROVER_assigns(ghost_att);
enum AuthorizationCheckResult attach_iline(struct Client *cptr)
  __CPROVER_requires(cptr && ghost_conf == rec_block(GlobalConfList, cptr) && ghost_att == 0)
  __CPROVER_ensures(!ghost_conf ? __CPROVER_return_value == ACR_NO_AUTHORIZATION && !ghost_att : uf_nr(cptr) > ghost_conf->maximum ? __CPROVER_return_value == ACR_TOO_MANY_FROM_IP && !ghost_att : ghost_att == ghost_conf && __CPROVER_return_value == ghost_res)
  __CPROVER_assigns(ghost_att);
#else
#define QUIET __CPROVER_ensures(1) __CPROVER_assigns()
void free_conf(struct ConfItem *aconf) QUIET;
static void conf_erase_crule_list(void) QUIET;
static void conf_erase_deny_list(void) QUIET;
void clear_quarantines(void) QUIET;
static void close_mappings(void) QUIET;
int ircd_tls_rehash(void) QUIET;
static void webirc_mark_stale(void) QUIET;
static void webirc_remove_stale(void) QUIET;
void det_confs_butmask(struct Client *cptr, int mask) QUIET;
void attach_conf_uworld(struct Client *cptr) QUIET;
int exit_client(struct Client *cptr, struct Client *bcptr, struct Client *sptr, const char *comment)
  __CPROVER_requires(uf_banned(bcptr) || spec_stale(bcptr))
  __CPROVER_ensures(ghost_out == (bcptr == ghost_u ? 1 : __CPROVER_old(ghost_out)))
  __CPROVER_assigns(ghost_out);
int read_configuration_file(void)
  __CPROVER_ensures(LISTED && ghost_out == 0)
  __CPROVER_assigns(verif_everything());
int rehash(struct Client *cptr, int sig)
  __CPROVER_requires(LISTED && ghost_out == 0)
  __CPROVER_ensures(ghost_out == (uf_banned(ghost_u) || spec_stale(ghost_u)))
  __CPROVER_assigns(verif_everything());
#endif
