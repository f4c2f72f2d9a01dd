/* C21: what setting a topic does (do_settopic in m_topic.c) */
#include "chan_api.h"
#include "ircd_reply.h"
int uf_differ(const char *a, const char *b, long n);
int ghost_cmp;                       /* the old topic differs from the new one */
const char *ghost_topic_src, *ghost_nick_src;
long ghost_topic_max, ghost_nick_max;
struct Channel *ghost_ch;
int ghost_chan_n;
struct Channel *ghost_chan_to;
struct Client *ghost_chan_from;
const void *ghost_chan_va1;
char ghost_chan_tok;
struct Membership *ghost_member; struct Channel *ghost_channel;
int ircd_strncmp(const char *a, const char *b, size_t n)
  __CPROVER_ensures(a != ghost_ch->topic || n != 160 || (__CPROVER_return_value != 0) == (ghost_cmp != 0))
  __CPROVER_assigns();
char *ircd_strncpy(char *s1, const char *s2, size_t n)
  __CPROVER_ensures(s1 == ghost_ch->topic ? ghost_topic_src == s2 && ghost_topic_max == n : ghost_topic_src == __CPROVER_old(ghost_topic_src) && ghost_topic_max == __CPROVER_old(ghost_topic_max))
  __CPROVER_ensures(s1 == ghost_ch->topic_nick ? ghost_nick_src == s2 && ghost_nick_max == n : ghost_nick_src == __CPROVER_old(ghost_nick_src) && ghost_nick_max == __CPROVER_old(ghost_nick_max))
  __CPROVER_assigns(__CPROVER_object_upto(s1, n + 1), ghost_topic_src, ghost_topic_max, ghost_nick_src, ghost_nick_max);
struct Membership *find_channel_member(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_member(chptr, cptr))
  __CPROVER_assigns();
void RevealDelayedJoin(struct Membership *member)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_any_bits(ghost_member->status, 0x40000)) __CPROVER_assigns(verif_any_bits(ghost_channel->mode.mode, 0x400000));
void sendcmdto_channel_butserv_butone(struct Client *from, const char *cmd, const char *tok, struct Channel *to, struct Client *one, unsigned int skip, const char *pattern, ...)
  __CPROVER_ensures(ghost_chan_n == __CPROVER_old(ghost_chan_n) + 1 && ghost_chan_to == to && ghost_chan_from == from && ghost_chan_tok == tok[0] && ghost_chan_va1 == verif_va_ptr(1))
  __CPROVER_ensures(one == 0 && skip == 0)
  __CPROVER_assigns(ghost_chan_n, ghost_chan_to, ghost_chan_from, ghost_chan_tok, ghost_chan_va1);
static void do_settopic(struct Client *sptr, struct Client *cptr, struct Channel *chptr, char *topic, time_t ts, char *who)
  __CPROVER_requires(ghost_ch == chptr && ghost_serv_n == 0 && ghost_chan_n == 0)
  __CPROVER_ensures(ghost_topic_src == topic && ghost_topic_max == 160 && ghost_nick_max == 15)
  __CPROVER_ensures(who ? ghost_nick_src == who : (ghost_nick_src == sptr->cli_name || (verif_old_int(spec_is_server(sptr)) && ghost_nick_src == his.cli_name)))
  __CPROVER_ensures(ts ? chptr->topic_time == ts : chptr->topic_time >= __CPROVER_old(chptr->topic_time))
  __CPROVER_ensures(ghost_serv_n == verif_old_int(chptr->chname[0] != '&'))
  __CPROVER_ensures(!ghost_serv_n || (ghost_serv_from == sptr && ghost_serv_but == cptr && ghost_serv_tok0 == 'T' && ghost_serv_tok1 == 0 && ghost_serv_va0 == chptr))
  __CPROVER_ensures(ghost_chan_n == (ghost_cmp != 0))
  __CPROVER_ensures(!ghost_chan_n || (ghost_chan_to == chptr && ghost_chan_tok == 'T' && ghost_chan_va1 == chptr->topic && (ghost_chan_from == sptr || (verif_old_int(spec_is_server(sptr)) && ghost_chan_from == &his))))
  __CPROVER_assigns(__CPROVER_object_upto(chptr->topic, 161), __CPROVER_object_upto(chptr->topic_nick, 16), chptr->topic_time)
  __CPROVER_assigns(ghost_topic_src, ghost_topic_max, ghost_nick_src, ghost_nick_max, REC_SERV, ghost_chan_n, ghost_chan_to, ghost_chan_from, ghost_chan_tok, ghost_chan_va1)
  __CPROVER_assigns(verif_any_bits(ghost_member->status, 0x40000)) __CPROVER_assigns(verif_any_bits(ghost_channel->mode.mode, 0x400000));
#include "ircd/m_topic.c"
