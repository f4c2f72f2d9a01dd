/* C16: what a MODE for a user changes (s_user.c) */
#define BIT(f) (1ul << (f))
#include "c15_env.h"
#include "channel.h"
#define FLAGS(c) ((c)->cli_flags.bits[0])
#define SETTABLE (BIT(FLAG_OPER) | BIT(FLAG_LOCOP) | BIT(FLAG_SERVNOTICE) | BIT(FLAG_WALLOP) | BIT(FLAG_INVISIBLE) | BIT(FLAG_DEAF) | BIT(FLAG_BLOCK_UNAUTH_USERS) | BIT(FLAG_CHSERV) | BIT(FLAG_DEBUG) | BIT(FLAG_ACCOUNT) | BIT(FLAG_TLS) | BIT(FLAG_HIDEIDLE) | BIT(FLAG_COMMONCHANS))
#define GRANTED (BIT(FLAG_OPER) | BIT(FLAG_LOCOP) | BIT(FLAG_CHSERV) | BIT(FLAG_ACCOUNT) | BIT(FLAG_TLS))
#define KEPT (BIT(FLAG_ACCOUNT) | BIT(FLAG_TLS) | BIT(FLAG_HIDDENHOST))
#define OPERS (BIT(FLAG_OPER) | BIT(FLAG_LOCOP))
unsigned long ghost_flags;           /* the flags before */
int uf_feature(int f);
int feature_bool(enum Feature feat)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_feature(feat) != 0))
  __CPROVER_assigns();
int ghost_umode, ghost_umode_prop, ghost_detached;
int ghost_host;                      /* hidden hosts put in place */
void send_umode_out(struct Client *cptr, struct Client *sptr, struct Flags *old, int prop)
  __CPROVER_requires(old->bits[0] == ghost_flags)
  __CPROVER_ensures(ghost_umode == __CPROVER_old(ghost_umode) + 1 && ghost_umode_prop == (prop != 0))
  __CPROVER_assigns(ghost_umode, ghost_umode_prop);
void set_snomask(struct Client *cptr, unsigned int newmask, int what)
  __CPROVER_ensures(1)
  __CPROVER_assigns(cptr->cli_connect->con_snomask);
void det_confs_butmask(struct Client *cptr, int mask)
  __CPROVER_requires(mask == (CONF_CLIENT & ~CONF_OPERATOR))
  __CPROVER_ensures(ghost_detached == __CPROVER_old(ghost_detached) + 1)
  __CPROVER_assigns(cptr->cli_connect->con_confs, ghost_detached);
int ircd_snprintf(struct Client *dest, char *buf, size_t buf_len, const char *format, ...)
  __CPROVER_requires(buf_len == HOSTLEN)
  __CPROVER_ensures(ghost_host == __CPROVER_old(ghost_host) + 1)
  __CPROVER_assigns(verif_text_upto(buf, HOSTLEN), ghost_host);
/* the hidden host shows exactly when both flags are there; a local user can only hide when the feature is on */
int hide_hostmask(struct Client *cptr, unsigned int flag)
  __CPROVER_requires(flag == FLAG_HIDDENHOST && cptr->cli_user)
  __CPROVER_ensures((FLAGS(cptr) & BIT(FLAG_HIDDENHOST)) == verif_old_ulong(spec_local(cptr) && !uf_feature(FEAT_HOST_HIDING) ? FLAGS(cptr) & BIT(FLAG_HIDDENHOST) : BIT(FLAG_HIDDENHOST)))
  __CPROVER_ensures(ghost_host == verif_old_int(ghost_host + (!(spec_local(cptr) && !uf_feature(FEAT_HOST_HIDING)) && (FLAGS(cptr) & BIT(FLAG_ACCOUNT)))))
  __CPROVER_ensures(((FLAGS(cptr) ^ verif_old_ulong(FLAGS(cptr))) & ~BIT(FLAG_HIDDENHOST)) == 0 && ((verif_old_ulong(FLAGS(cptr)) & ~FLAGS(cptr)) == 0))
  __CPROVER_assigns(cptr->cli_flags.bits[0], cptr->cli_user->host, ghost_host);
#include "ircd/s_user.c"
void verif_inv_set_user_mode(struct Client *sptr, struct Flags *setflags)
  __CPROVER_ensures(setflags->bits[0] == ghost_flags && ((FLAGS(sptr) ^ ghost_flags) & ~SETTABLE) == 0 && !(ghost_flags & ~FLAGS(sptr) & BIT(FLAG_ACCOUNT)));
/* F: the flags before, G: after, by the user himself */
static int spec_allowed(unsigned long F, unsigned long G)
{
  if (((G & ~F) & GRANTED) || ((F & ~G) & KEPT) || ((F ^ G) & ~(SETTABLE | BIT(FLAG_HIDDENHOST)))) return 0;
  if (uf_feature(FEAT_WALLOPS_OPER_ONLY) && (G & ~F & BIT(FLAG_WALLOP)) && !(G & OPERS)) return 0;
  if (uf_feature(FEAT_HIS_DEBUG_OPER_ONLY) && (G & ~F & BIT(FLAG_DEBUG)) && !(G & OPERS)) return 0;
  if (uf_feature(FEAT_HIS_SNOTICES_OPER_ONLY) && (G & ~F & BIT(FLAG_SERVNOTICE)) && !(G & OPERS)) return 0;
  return 1;
}
static int spec_lost(unsigned long F, unsigned long G) { return (F & OPERS) && !(G & OPERS); }
int set_user_mode(struct Client *cptr, struct Client *sptr, int parc, char *parv[], int allow_modes)
  __CPROVER_requires(ghost_flags == FLAGS(sptr) && cptr == sptr && spec_my_user(sptr) && sptr->cli_user && parc >= 3 && ghost_umode == 0 && ghost_detached == 0)
  __CPROVER_requires(ghost_p >= 0 && ghost_p < PRIV_LAST_PRIV && (ghost_flags & OPERS) != OPERS)
  __CPROVER_requires((ghost_flags & OPERS) || !SPEC_PRIV(sptr, ghost_p))
  __CPROVER_ensures(spec_allowed(ghost_flags, FLAGS(sptr)))
  __CPROVER_ensures(ghost_detached == spec_lost(ghost_flags, FLAGS(sptr)))
  __CPROVER_ensures(spec_lost(ghost_flags, FLAGS(sptr)) ? sptr->cli_connect->con_handler == CLIENT_HANDLER && !SPEC_PRIV(sptr, ghost_p)
     : sptr->cli_connect->con_handler == __CPROVER_old(sptr->cli_connect->con_handler) && (SPEC_PRIV(sptr, ghost_p) != 0) == verif_old_int(SPEC_PRIV(sptr, ghost_p) != 0))
  __CPROVER_ensures(ghost_umode == 1 && UserStats.inv_clients == (unsigned)(verif_old_int(UserStats.inv_clients) + (int)((FLAGS(sptr) >> FLAG_INVISIBLE) & 1) - (int)((ghost_flags >> FLAG_INVISIBLE) & 1)))
  __CPROVER_ensures(UserStats.opers == (unsigned)(verif_old_int(UserStats.opers) + (int)((FLAGS(sptr) >> FLAG_OPER) & 1) - (int)((ghost_flags >> FLAG_OPER) & 1)))
  __CPROVER_assigns(sptr->cli_flags.bits[0], sptr->cli_connect->con_handler, sptr->cli_connect->con_snomask, sptr->cli_connect->con_max_sendq, sptr->cli_connect->con_max_flood, sptr->cli_connect->con_privs.bits[0], sptr->cli_connect->con_confs, UserStats.opers, UserStats.inv_clients, ghost_umode, ghost_umode_prop, ghost_detached, sptr->cli_user->host, ghost_host);
