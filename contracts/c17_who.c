/* C17: WHO (m_who.c) */
#include "c17_env.h"
#include "whocmds.h"
static int spec_seer(struct Client *c) { return spec_anyop(c) && SPEC_PRIV(c, PRIV_WHOX) && SPEC_PRIV(c, PRIV_SEE_CHAN); }
static int rec_live(struct Membership *m, const struct Channel *ch)
{
  if (!m) return 0;
  if (m->channel == ch && !(m->status & 0x10)) return 1;
  return rec_live(m->next_channel, ch);
}
/* a user of this server who is kicked is off the channel at once (C10: make_zombie) */
static int rec_no_zombie(struct Membership *m) { return !m || (!(m->status & 0x10) && rec_no_zombie(m->next_channel)); }
int send_reply(struct Client *to, int reply, ...)
  __CPROVER_requires(to == ghost_to)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
int matchexec(const char *string, const char *cmask, int minlen)
  __CPROVER_requires(string != ghost_ac->cli_user->realhost || spec_anyop(ghost_to))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
int ipmask_check(const struct irc_in_addr *addr, const struct irc_in_addr *mask, unsigned char bits)
  __CPROVER_requires(addr != &ghost_ac->cli_ip || spec_anyop(ghost_to) || !(SPEC_FLAG(ghost_ac, FLAG_HIDDENHOST) && SPEC_FLAG(ghost_ac, FLAG_ACCOUNT)))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void do_who(struct Client *sptr, struct Client *acptr, struct Channel *repchan, int fields, char *qrt)
  __CPROVER_requires(sptr == ghost_to)
  __CPROVER_requires(!repchan || repchan != ghost_ch || rec_live(sptr->cli_user->channel, ghost_ch) || !(repchan->mode.mode & MODE_SECRET) || uf_member(repchan, sptr) || spec_seer(sptr))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
char *strcpy(char *d, const char *s)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_text_upto(d, 512));
int matchcomp(char *cmask, int *minlen, int *charset, const char *mask)
  __CPROVER_ensures(1)
  __CPROVER_assigns(*minlen, *charset, verif_text_upto(cmask, 512));
int ipmask_parse(const char *in, struct irc_in_addr *mask, unsigned char *pbits)
  __CPROVER_ensures(1)
  __CPROVER_assigns(mask->in6_16[0], *pbits);
char *ircd_strtok(char **save, char *str, char *fs)
  __CPROVER_ensures(1)
  __CPROVER_assigns(*save, verif_text_upto(str, 512));
void verif_inv_m_who(int bitsel, struct Client *sptr)
  __CPROVER_ensures(!(bitsel & WHOSELECT_EXTRA) || (spec_anyop(sptr) && SPEC_PRIV(sptr, PRIV_WHOX)));
void verif_inv_m_who_chan(struct Membership *chan, struct Client *sptr)
  __CPROVER_ensures(rec_no_zombie(chan) && (!rec_live(chan, ghost_ch) || rec_live(sptr->cli_user->channel, ghost_ch)));
int m_who(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(sptr && sptr == ghost_to && rec_no_zombie(sptr->cli_user->channel))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_everything());
#include "ircd/m_who.c"
