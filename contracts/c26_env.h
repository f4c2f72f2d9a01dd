/* C26/C27: matching and bans */
#include "config.h"
#include "verif.h"
#include "client.h"
#include "gline.h"
#include "ircd.h"
#include "ircd_features.h"
#include "ircd_snprintf.h"
#include "ircd_string.h"
#include "match.h"
#include "res.h"
#include "s_bsd.h"
#include "s_conf.h"
#include "s_misc.h"
#include "s_user.h"
#include "send.h"
#include "struct.h"
#include "numeric.h"
#include "listener.h"
#include "spec_client.h"
int uf_feature(int f);
int feature_bool(enum Feature feat)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_feature(feat) != 0))
  __CPROVER_assigns();
int uf_differ(const char *a, const char *b);
int uf_nomatch(const char *mask, const char *text);
int uf_ipmask(const void *ip, const void *mask, int bits);
int ircd_strcmp(const char *a, const char *b)
  __CPROVER_ensures(__CPROVER_return_value == uf_differ(a, b))
  __CPROVER_assigns();
int match(const char *mask, const char *name)
  __CPROVER_ensures(__CPROVER_return_value == uf_nomatch(mask, name))
  __CPROVER_assigns();
int ipmask_check(const struct irc_in_addr *addr, const struct irc_in_addr *mask, unsigned char bits)
  __CPROVER_ensures(__CPROVER_return_value == uf_ipmask(addr, mask, bits))
  __CPROVER_assigns();
extern struct Gline *GlobalGlineList, *BadChanGlineList;
struct Client *ghost_u;               /* one connection, standing for every one */
int ghost_fd, ghost_out;
#define LISTED (0 <= ghost_fd && ghost_fd <= HighestFd && HighestFd < MAXCONNECTIONS && ghost_u && LocalClientArray[ghost_fd] == ghost_u)
