/* C22: INVITE (m_invite.c) */
#include "c08_env.h"
#include "ircd_reply.h"
#include "ircd_chattr.h"
int ghost_inv_n;
struct Client *ghost_inv_who;
struct Channel *ghost_inv_ch;
int is_silenced(struct Client *sptr, struct Client *acptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == spec_silenced(sptr, acptr))
  __CPROVER_assigns();
int should_block_unauth_user(struct Client *source, struct Client *dest)
  __CPROVER_ensures((__CPROVER_return_value != 0) == spec_unauth_blocked(source, dest))
  __CPROVER_assigns();
struct Membership *find_channel_member(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_member(chptr, cptr))
  __CPROVER_assigns();
static int spec_opped(struct Membership *m) { return m && !(m->status & 0x10) && (m->status & 0x1); }
int is_chan_op(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (spec_opped(spec_link(chptr, cptr)) != 0))
  __CPROVER_assigns();
unsigned int uf_chattr(const char *s);
unsigned int strChattr(const char *s)
  __CPROVER_ensures(__CPROVER_return_value == uf_chattr(s))
  __CPROVER_assigns();
int uf_atoi(const char *s);
int atoi(const char *s)
  __CPROVER_ensures(__CPROVER_return_value == uf_atoi(s))
  __CPROVER_assigns();
void add_invite(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures(ghost_inv_n == __CPROVER_old(ghost_inv_n) + 1 && ghost_inv_who == cptr && ghost_inv_ch == chptr)
  __CPROVER_assigns(ghost_inv_n, ghost_inv_who, ghost_inv_ch);
static int spec_may_invite(struct Client *s, const char *nick, const char *channel)
{
  struct Client *d = SEEK(nick, 0x080);
  struct Channel *ch;
  if (!d || !channel || (*channel != '#' && *channel != '&') || !(uf_chattr(channel) & NTL_IRCCH)) return 0;
  ch = uf_channel(channel);
  if (!ch || spec_user_refuses(s, d) || !spec_opped(spec_link(ch, s)) || spec_member(ch, d)) return 0;
  return !uf_limited(s, d);
}
static struct Client *spec_invited(const char *nick) { return SEEK(nick, 0x080); }
int m_invite(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_n == 0 && ghost_inv_n == 0 && cptr == sptr && spec_my_user(sptr))
  __CPROVER_ensures(ghost_inv_n == verif_old_int(parc >= 3 && spec_may_invite(sptr, parv[1], parv[2]) && spec_local(spec_invited(parv[1]))))
  __CPROVER_ensures(!ghost_inv_n || (ghost_inv_who == verif_old_ptr(spec_invited(parv[1])) && ghost_inv_ch == verif_old_ptr(uf_channel(parv[2]))))
  __CPROVER_ensures(ghost_n == verif_old_int(parc >= 3 && spec_may_invite(sptr, parv[1], parv[2]) && (spec_local(spec_invited(parv[1])) || uf_channel(parv[2])->chname[0] != '&')))
  __CPROVER_ensures(!ghost_n || (ghost_from[0] == sptr && ghost_to[0] == verif_old_ptr(spec_invited(parv[1])) && ghost_tok0[0] == 'I' && ghost_tok1[0] == 0 && ghost_va0[0] == ghost_to[0]->cli_name && ghost_va1[0] == verif_old_ptr(uf_channel(parv[2]))))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_n, ghost_from, ghost_to, ghost_tok0, ghost_tok1, ghost_va0, ghost_va1, ghost_inv_n, ghost_inv_who, ghost_inv_ch);

static int spec_heard(struct Client *s, int parc, const char *nick, const char *channel)
{
  return !spec_is_server(s) && parc >= 3 && channel && *channel == '#' && SEEK(nick, 0x080) != 0;
}
/* an INVITE from another server for an existing channel */
static int spec_remote_invite(struct Client *c, struct Client *s, int parc, const char *nick, const char *channel, const char *ts)
{
  struct Client *d;
  struct Channel *ch;
  if (!spec_heard(s, parc, nick, channel)) return 0;
  d = SEEK(nick, 0x080);
  ch = uf_channel(channel);
  if (!ch) return 0;
  if (parc > 3 ? uf_atoi(ts) > ch->creationtime : SPEC_FLAG(c, FLAG_BURST) || SPEC_FLAG(c, FLAG_BURST_ACK)) return 0;
  if (!spec_service(s) && !spec_member(ch, s)) return 0;
  return !spec_member(ch, d) && !spec_user_refuses(s, d);
}
int ms_invite(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_n == 0 && ghost_inv_n == 0 && (spec_is_user(sptr) || spec_is_server(sptr)))
  __CPROVER_ensures(ghost_inv_n == verif_old_int(spec_remote_invite(cptr, sptr, parc, parv[1], parv[2], parv[3]) && spec_local(spec_invited(parv[1]))))
  __CPROVER_ensures(!ghost_inv_n || (ghost_inv_who == verif_old_ptr(spec_invited(parv[1])) && ghost_inv_ch == verif_old_ptr(uf_channel(parv[2]))))
  __CPROVER_ensures(ghost_n == verif_old_int(spec_remote_invite(cptr, sptr, parc, parv[1], parv[2], parv[3]) || (spec_heard(sptr, parc, parv[1], parv[2]) && !uf_channel(parv[2]))))
  __CPROVER_ensures(!ghost_n || (ghost_from[0] == sptr && ghost_to[0] == verif_old_ptr(spec_invited(parv[1])) && ghost_tok0[0] == 'I' && ghost_tok1[0] == 0))
  __CPROVER_ensures(!ghost_n || verif_old_ptr(uf_channel(parv[2])) == 0 || (ghost_va0[0] == ghost_to[0]->cli_name && ghost_va1[0] == verif_old_ptr(uf_channel(parv[2]))))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_n, ghost_from, ghost_to, ghost_tok0, ghost_tok1, ghost_va0, ghost_va1, ghost_inv_n, ghost_inv_who, ghost_inv_ch);
#include "ircd/m_invite.c"
