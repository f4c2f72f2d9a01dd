/* C17: one line of WHO (do_who in whocmds.c) */
#include "c17_env.h"
#include "whocmds.h"
int send_reply(struct Client *to, int reply, ...)
  __CPROVER_requires(to == ghost_to)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
const char *ircd_ntoa(const struct irc_in_addr *addr)
  __CPROVER_requires(addr != &ghost_ac->cli_ip || spec_anyop(ghost_to) || !(SPEC_FLAG(ghost_ac, FLAG_HIDDENHOST) && SPEC_FLAG(ghost_ac, FLAG_ACCOUNT)))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void verif_at_do_who(struct Membership *chan, struct Client *acptr, struct Client *sptr)
  __CPROVER_requires(!chan || !chan->channel || (ghost_ch && chan == uf_member(ghost_ch, acptr)) || (!ghost_ch && !spec_hidden(chan->channel) && (acptr == sptr || !(chan->status & 0x10)) && !SPEC_FLAG(acptr, FLAG_CHSERV)))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
int ircd_snprintf(struct Client *dest, char *buf, size_t buf_len, const char *format, ...)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(buf, 20));
char *strcpy(char *d, const char *s)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 512));
void do_who(struct Client *sptr, struct Client *acptr, struct Channel *repchan, int fields, char *qrt)
  __CPROVER_requires(sptr && sptr == ghost_to && acptr == ghost_ac && repchan == ghost_ch)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
#include "ircd/whocmds.c"
