/* C21: TOPIC (m_topic.c).  The list of names is walked with ircd_strtok(): each name it hands out starts an event
 * (ghost_want: must this name's topic be set now; ghost_see: may the sender be shown it), and the event has to be
 * settled (ghost_did == ghost_want, ghost_showed == ghost_look) before the next name is asked for. */
#include "chan_api.h"
#include "ircd_reply.h"
#include "numeric.h"
int ghost_remote, ghost_parc, ghost_has_topic;
struct Client *ghost_sptr;
const char *ghost_p2, *ghost_p3, *ghost_p4, *ghost_text, *ghost_name;
int ghost_want, ghost_did, ghost_look, ghost_showed;
struct Membership *ghost_member; struct Channel *ghost_channel;
int uf_atoi(const char *s);
int atoi(const char *s)
  __CPROVER_ensures(__CPROVER_return_value == uf_atoi(s))
  __CPROVER_assigns();
int client_can_send_to_channel(struct Client *cptr, struct Channel *chptr, int reveal)
  __CPROVER_requires(cptr->cli_status != 4)
  __CPROVER_ensures((__CPROVER_return_value != 0) == verif_old_int(spec_speaks(chptr, cptr)))
  __CPROVER_assigns(verif_any_bits(ghost_member->status, 0x1800))
  __CPROVER_assigns(reveal: verif_any_bits(ghost_member->status, 0x40000), verif_any_bits(ghost_channel->mode.mode, 0x400000));
struct Membership *find_channel_member(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_member(chptr, cptr))
  __CPROVER_assigns();
int is_chan_op(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (spec_opped(spec_link(chptr, cptr)) != 0))
  __CPROVER_assigns();
#define CH_TOPICLIMIT 0x0020
#define CH_SECRET 0x0008
static int spec_named(const char *n) { return n && (*n == '#' || *n == '&') && uf_channel(n) != 0; }
/* may a local user set / must be shown the topic of the channel called n */
static int spec_may_set(const char *n, struct Client *s)
{
  struct Channel *ch;
  if (!spec_named(n)) return 0;
  ch = uf_channel(n);
  if (!spec_member(ch, s)) return 0;
  if ((ch->mode.mode & CH_TOPICLIMIT) && !spec_opped(spec_link(ch, s))) return 0;
  return spec_speaks(ch, s);
}
static int spec_may_see(const char *n, struct Client *s)
{
  struct Channel *ch;
  if (!spec_named(n)) return 0;
  ch = uf_channel(n);
  return !(ch->mode.mode & CH_SECRET) || spec_member(ch, s) != 0;
}
/* is a topic sent by another server taken over: the channel must not be older here, nor its topic newer */
static int spec_taken(const char *n, struct Client *s)
{
  struct Channel *ch;
  if (!spec_named(n)) return 0;
  ch = uf_channel(n);
  if (*n == '&' && !spec_my_user(s)) return 0;
  if (ghost_parc > 3 && uf_atoi(ghost_p2) != 0 && ch->creationtime < uf_atoi(ghost_p2)) return 0;
  if (ghost_parc > 4 && uf_atoi(ghost_p3) != 0 && ch->topic_time > uf_atoi(ghost_p3)) return 0;
  return 1;
}
static int spec_want(const char *n)
{
  if (!n) return 0;
  if (ghost_remote) return spec_taken(n, ghost_sptr);
  return ghost_has_topic && spec_may_set(n, ghost_sptr);
}
static int spec_look(const char *n)
{
  return n && !ghost_remote && !ghost_has_topic && spec_may_see(n, ghost_sptr) && uf_channel(n)->topic[0] != 0;
}
#define EV_GHOSTS ghost_name, ghost_want, ghost_did, ghost_look, ghost_showed
char *ircd_strtok(char **save, char *str, char *fs)
  __CPROVER_requires(ghost_did == ghost_want && ghost_showed == ghost_look)
  __CPROVER_ensures(!__CPROVER_return_value || *__CPROVER_return_value)
  __CPROVER_ensures(ghost_name == __CPROVER_return_value && ghost_did == 0 && ghost_showed == 0)
  __CPROVER_ensures(ghost_want == (spec_want(__CPROVER_return_value) != 0) && ghost_look == (spec_look(__CPROVER_return_value) != 0))
  __CPROVER_assigns(*save) __CPROVER_assigns(EV_GHOSTS);
/* only ever called for the channel of the current event, once, when the topic is to be set */
static void do_settopic(struct Client *sptr, struct Client *cptr, struct Channel *chptr, char *topic, time_t ts, char *who)
  __CPROVER_requires(ghost_want == 1 && ghost_did == 0 && chptr == uf_channel(ghost_name) && sptr == ghost_sptr)
  __CPROVER_requires(topic == ghost_text && ts == (ghost_remote && ghost_parc > 4 ? uf_atoi(ghost_p3) : 0))
  __CPROVER_requires(ghost_remote ? IMPLIES(ghost_parc > 5, who == ghost_p4) : !who)
  __CPROVER_ensures(ghost_did == 1)
  __CPROVER_assigns(ghost_did, chptr->topic, chptr->topic_nick, chptr->topic_time)
  __CPROVER_assigns(verif_any_bits(ghost_member->status, 0x40000)) __CPROVER_assigns(verif_any_bits(ghost_channel->mode.mode, 0x400000));
int send_reply(struct Client *to, int reply, ...)
  __CPROVER_requires(reply != 332 || (to == ghost_sptr && ghost_look == 1 && ghost_showed == 0 && verif_va_ptr(0) == uf_channel(ghost_name)->chname && verif_va_ptr(1) == uf_channel(ghost_name)->topic))
  __CPROVER_requires(reply != 333 || ghost_look == 1)
  __CPROVER_ensures(ghost_showed == (reply == 332 ? 1 : __CPROVER_old(ghost_showed)))
  __CPROVER_assigns(ghost_showed);
int m_topic(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_did == 0 && ghost_want == 0 && ghost_look == 0 && ghost_showed == 0 && ghost_remote == 0)
  __CPROVER_requires(ghost_sptr == sptr && cptr == sptr && spec_my_user(sptr) && ghost_has_topic == (parc > 2 && parv[parc - 1] != 0) && ghost_text == parv[parc - 1])
  __CPROVER_ensures(ghost_did == ghost_want && ghost_showed == ghost_look)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(EV_GHOSTS);
void verif_inv_m_topic(char *p)
  __CPROVER_ensures(ghost_did == ghost_want && ghost_showed == ghost_look && ghost_remote == 0);
int ms_topic(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_did == 0 && ghost_want == 0 && ghost_look == 0 && ghost_showed == 0 && ghost_remote == 1)
  __CPROVER_requires(ghost_sptr == sptr && ghost_parc == parc && ghost_p2 == parv[2] && ghost_p3 == parv[3] && ghost_p4 == parv[4] && ghost_text == parv[parc - 1])
  __CPROVER_ensures(ghost_did == ghost_want)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(EV_GHOSTS);
void verif_inv_ms_topic(int parc, char *parv[])
  __CPROVER_ensures(ghost_did == ghost_want && ghost_showed == ghost_look && parv[2] == ghost_p2 && parv[3] == ghost_p3 && parv[4] == ghost_p4);
#include "ircd/m_topic.c"
