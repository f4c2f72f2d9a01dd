/* C10: KICK (m_kick.c) */
#include "chan_api.h"
int ghost_kick_n, ghost_gone_n;
struct Membership *ghost_kick_m;
struct Client *ghost_kick_who, *ghost_gone_who;
struct Channel *ghost_kick_ch, *ghost_gone_ch;
void make_zombie(struct Membership *member, struct Client *who, struct Client *cptr, struct Client *sptr, struct Channel *chptr)
  __CPROVER_ensures(ghost_kick_n == __CPROVER_old(ghost_kick_n) + 1 && ghost_kick_m == member && ghost_kick_who == who && ghost_kick_ch == chptr)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_kick_n, ghost_kick_m, ghost_kick_who, ghost_kick_ch);
void remove_user_from_channel(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures(ghost_gone_n == __CPROVER_old(ghost_gone_n) + 1 && ghost_gone_who == cptr && ghost_gone_ch == chptr)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_gone_n, ghost_gone_who, ghost_gone_ch);
void CheckDelayedJoins(struct Channel *chan)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_any_bits(chan->mode.mode, 0x400000));

/* whom and from where a KICK may remove */
static int spec_protected(struct Membership *kicker, struct Membership *m)
{
  return m->oplevel < kicker->oplevel || (m->oplevel == kicker->oplevel && m->oplevel < 999);
}
static struct Client *spec_target(const char *nick) { return uf_chase(nick); }
static int spec_may_kick(struct Client *s, const char *channel, const char *nick)
{
  struct Channel *ch = spec_chan(channel);
  struct Membership *k, *m;
  struct Client *who;
  if (!ch) return 0;
  k = spec_link(ch, s);
  if (!spec_opped(k)) return 0;
  who = uf_chase(nick);
  if (!who || spec_service(who)) return 0;
  if (ch->chname[0] == '&' && SPEC_PRIV(who, PRIV_DEOP_LCHAN)) return 0;
  m = spec_member(ch, who);
  return m && !spec_protected(k, m);
}
static struct Membership *spec_target_link(const char *channel, const char *nick) { return spec_link(spec_chan(channel), uf_chase(nick)); }
int m_kick(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_kick_n == 0 && ghost_serv_n == 0 && cptr == sptr && spec_my_user(sptr))
  __CPROVER_ensures(ghost_kick_n == verif_old_int(parc >= 3 && spec_may_kick(sptr, parv[1], parv[2])))
  __CPROVER_ensures(!ghost_kick_n || (ghost_kick_m == verif_old_ptr(spec_target_link(parv[1], parv[2])) && ghost_kick_who == verif_old_ptr(uf_chase(parv[2])) && ghost_kick_ch == verif_old_ptr(uf_channel(parv[1]))))
  __CPROVER_ensures(ghost_serv_n == verif_old_int(parc >= 3 && spec_may_kick(sptr, parv[1], parv[2]) && parv[1][0] != '&'))
  __CPROVER_ensures(!ghost_serv_n || (ghost_serv_from == sptr && ghost_serv_tok0 == 'K' && ghost_serv_tok1 == 0 && ghost_serv_va0 == verif_old_ptr(uf_channel(parv[1])) && ghost_serv_va1 == verif_old_ptr(uf_chase(parv[2]))))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_SERV, ghost_kick_n, ghost_kick_m, ghost_kick_who, ghost_kick_ch);

/* a KICK from another server that is not to be believed: its source holds no ops here, nobody nearer the victim accepted it */
static int spec_bounced(struct Client *c, struct Client *s, struct Channel *ch, struct Client *who)
{
  struct Membership *k;
  if (spec_is_server(s) || !spec_member(ch, who) || who->cli_connect->con_client == c) return 0;
  k = spec_link(ch, s);
  return !k || !(k->status & 0x1);
}
static int spec_heard(int parc, const char *channel, const char *nick)
{
  return parc >= 3 && *channel != '&' && spec_chan(channel) && uf_numuser(nick);
}
static int spec_remote_kick(struct Client *c, struct Client *s, int parc, const char *channel, const char *nick)
{
  return spec_heard(parc, channel, nick) && !spec_bounced(c, s, spec_chan(channel), uf_numuser(nick));
}
static int spec_remote_removal(struct Client *c, struct Client *s, int parc, const char *channel, const char *nick)
{
  return spec_remote_kick(c, s, parc, channel, nick) && spec_member(spec_chan(channel), uf_numuser(nick)) != 0;
}
static int spec_ghost_removal(struct Client *s, int parc, const char *channel, const char *nick)
{
  struct Membership *m;
  if (!spec_heard(parc, channel, nick)) return 0;
  m = spec_link(spec_chan(channel), uf_numuser(nick));
  return m && (m->status & 0x10) && s == uf_numuser(nick)->cli_user->server;
}
static struct Membership *spec_numlink(const char *channel, const char *nick) { return spec_link(spec_chan(channel), uf_numuser(nick)); }
int ms_kick(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_kick_n == 0 && ghost_serv_n == 0 && ghost_gone_n == 0 && (spec_is_user(sptr) || spec_is_server(sptr)))
  __CPROVER_ensures(ghost_kick_n == verif_old_int(spec_remote_removal(cptr, sptr, parc, parv[1], parv[2])))
  __CPROVER_ensures(!ghost_kick_n || (ghost_kick_m == verif_old_ptr(spec_numlink(parv[1], parv[2])) && ghost_kick_who == verif_old_ptr(uf_numuser(parv[2])) && ghost_kick_ch == verif_old_ptr(uf_channel(parv[1]))))
  __CPROVER_ensures(ghost_serv_n == verif_old_int(spec_remote_kick(cptr, sptr, parc, parv[1], parv[2])))
  __CPROVER_ensures(!ghost_serv_n || (ghost_serv_from == sptr && ghost_serv_but == cptr && ghost_serv_tok0 == 'K' && ghost_serv_tok1 == 0 && ghost_serv_va0 == verif_old_ptr(uf_channel(parv[1])) && ghost_serv_va1 == verif_old_ptr(uf_numuser(parv[2]))))
  __CPROVER_ensures(ghost_gone_n == verif_old_int(spec_ghost_removal(sptr, parc, parv[1], parv[2])))
  __CPROVER_ensures(!ghost_gone_n || (ghost_gone_who == verif_old_ptr(uf_numuser(parv[2])) && ghost_gone_ch == verif_old_ptr(uf_channel(parv[1]))))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_SERV, ghost_kick_n, ghost_kick_m, ghost_kick_who, ghost_kick_ch, ghost_gone_n, ghost_gone_who, ghost_gone_ch);
#include "ircd/m_kick.c"
