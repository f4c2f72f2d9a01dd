/* C13: SET and RESET change a setting only with the privilege */
#include "c13_env.h"
#include "ircd_reply.h"
int ghost_x; /* anything at all */
int feature_set(struct Client *from, const char *const *fields, int count)
  __CPROVER_requires(!from || spec_my_user(from))
  __CPROVER_ensures(1)
  __CPROVER_assigns(!from || SPEC_PRIV(from, PRIV_SET): verif_everything());
int feature_reset(struct Client *from, const char *const *fields, int count)
  __CPROVER_requires(spec_my_user(from))
  __CPROVER_ensures(1)
  __CPROVER_assigns(SPEC_PRIV(from, PRIV_SET): verif_everything());
#include "ircd/ircd_features.c"
