/* C17: WHOIS (m_whois.c) */
#include "c17_env.h"
#include "ircd_features.h"
int uf_feature(int f);
int feature_bool(enum Feature feat)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_feature(feat) != 0))
  __CPROVER_assigns();
static int spec_chan_ok(const char *s)
{
  return !ghost_ch || s[0] == ' ' || s != ghost_ch->chname || spec_sees(ghost_to, ghost_ch) || (spec_globop(ghost_to) && ghost_ch->chname[0] == '&');
}
int ghost_see_host;                  /* the real host and address of ghost_ac are for ghost_to to see */
#define SINK(s) spec_chan_ok(s)
char *strcpy(char *d, const char *s)
  __CPROVER_requires(SINK(s))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 512));
char *strcat(char *d, const char *s)
  __CPROVER_requires(SINK(s))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 512));
char *ircd_strncpy(char *d, const char *s, size_t n)
  __CPROVER_requires(SINK(s))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 512));
const char *ircd_ntoa(const struct irc_in_addr *addr)
  __CPROVER_requires(addr != &ghost_ac->cli_ip || ghost_see_host)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
int send_reply(struct Client *to, int reply, ...)
  __CPROVER_requires(to == ghost_to)
  __CPROVER_requires((reply & ~SND_EXPLICIT) != RPL_WHOISACTUALLY || ghost_see_host)
  __CPROVER_requires((reply & ~SND_EXPLICIT) != RPL_WHOISUSER || (verif_va_ptr(1) != ghost_ac->cli_user->realhost && verif_va_ptr(2) == ghost_ac->cli_user->host))
  __CPROVER_requires((reply & ~SND_EXPLICIT) != RPL_WHOISIDLE || ghost_to == ghost_ac || spec_anyop(ghost_to) || !SPEC_FLAG(ghost_ac, FLAG_HIDEIDLE))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
static void do_whois(struct Client *sptr, struct Client *acptr, int parc)
  __CPROVER_requires(sptr == ghost_to && acptr == ghost_ac && acptr->cli_user)
  __CPROVER_requires(ghost_see_host == ((spec_anyop(sptr)) || sptr == acptr || !(SPEC_FLAG(acptr, FLAG_HIDDENHOST) && SPEC_FLAG(acptr, FLAG_ACCOUNT))))
  __CPROVER_requires(ghost_mb->channel == ghost_ch)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void verif_at_do_whois(struct Membership *chan, struct Client *acptr, struct Client *sptr)
  __CPROVER_requires(acptr == ghost_ac && sptr == ghost_to && (!(chan->status & 0x10) || acptr == sptr))
  __CPROVER_requires(!chan->channel || spec_sees(sptr, chan->channel) || (spec_globop(sptr) && chan->channel->chname[0] == '&'))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
#include "ircd/m_whois.c"
