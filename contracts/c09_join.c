/* C09: JOIN by a local user (m_join.c).  Each name that ircd_strtok() hands out starts an event: it fixes the channel
 * registered under the name, whether a BADCHAN applies and whether the target limit is hit; the event has to be
 * settled (joined exactly when the name, the key and the channel's state allow it) before the next name is asked for. */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_features.h"
#include "ircd_string.h"
#include "list.h"
#include "res.h"
#include "s_user.h"
#include "send.h"
#include "struct.h"
#include "spec_chan.h"
#define SPEC_PRIV(c, p) (((c)->cli_connect->con_privs.bits[(p) / 64] >> ((p) % 64)) & 1ul)
#include "gline.h"
#include "ircd_chattr.h"
#include "ircd_reply.h"
#include "numeric.h"
struct Client *ghost_sptr;
const char *ghost_name, *ghost_key, *ghost_keys, *ghost_comma;
struct Channel *ghost_chan;
struct Gline *ghost_badchan;
int ghost_hit, ghost_haskey, ghost_keyed, ghost_did, ghost_uninvited, ghost_opped, ghost_made, ghost_refused, ghost_flags, ghost_flushed;
struct Channel *ghost_ch; struct Membership *ghost_m; struct User *ghost_u; struct SLink *ghost_l;
#define EV_GHOSTS ghost_name, ghost_key, ghost_keys, ghost_comma, ghost_chan, ghost_badchan, ghost_hit, ghost_haskey, ghost_keyed, ghost_did, ghost_uninvited, ghost_opped, ghost_made, ghost_refused, ghost_flags
#define JOIN_FRAME __CPROVER_assigns(verif_any_field(ghost_u->joined), verif_any_field(ghost_u->channel)) \
  __CPROVER_assigns(verif_any_field(ghost_ch->members), verif_any_field(ghost_ch->users), verif_any_field(ghost_ch->mode.mode), verif_any_field(ghost_ch->destruct_event)) \
  __CPROVER_assigns(verif_any_field(ghost_m->user), verif_any_field(ghost_m->channel), verif_any_field(ghost_m->status), verif_any_field(ghost_m->oplevel)) \
  __CPROVER_assigns(verif_any_field(ghost_m->next_member), verif_any_field(ghost_m->prev_member), verif_any_field(ghost_m->next_channel), verif_any_field(ghost_m->prev_channel))

struct Membership *find_member_link(struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_link(chptr, cptr))
  __CPROVER_assigns();
int uf_fint(int f);
int uf_fbool(int f);
int feature_int(enum Feature f) __CPROVER_ensures(__CPROVER_return_value == uf_fint(f)) __CPROVER_assigns();
int feature_bool(enum Feature f) __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_fbool(f) != 0)) __CPROVER_assigns();
unsigned int uf_chattr(const char *s);
unsigned int strChattr(const char *s) __CPROVER_ensures(__CPROVER_return_value == uf_chattr(s)) __CPROVER_assigns();
unsigned long uf_length(const char *s);
unsigned long strlen(const char *s) __CPROVER_ensures(__CPROVER_return_value == uf_length(s)) __CPROVER_assigns();
/* are two texts the same: evaluated in one order of the arguments, whichever way round it is asked */
static int rec_eq(const char *a, const char *b)
{
  if (*a != *b) return 0;
  if (!*a) return 1;
  return rec_eq(a + 1, b + 1);
}
static int spec_eq(const char *a, const char *b)
{
  return (unsigned long)a <= (unsigned long)b ? rec_eq(a, b) : rec_eq(b, a);
}
int strcmp(const char *a, const char *b)
  __CPROVER_requires(!ghost_comma || !*ghost_comma)
  __CPROVER_ensures((__CPROVER_return_value == 0) == (spec_eq(a, b) != 0))
  __CPROVER_assigns();
static int rec_invited(struct SLink *lp, const void *ch)
{
  if (!lp) return 0;
  if (lp->value.chptr == ch) return 1;
  return rec_invited(lp->next, ch);
}
int IsInvited(struct Client *cptr, const void *chptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (rec_invited(cptr->cli_user->invited, chptr) != 0))
  __CPROVER_assigns();
struct Ban *find_ban(struct Client *cptr, struct Ban *banlist)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_banned(cptr, banlist) != 0))
  __CPROVER_assigns();
struct Gline *gline_find(char *userhost, unsigned int flags)
  __CPROVER_requires(userhost == ghost_name && (flags & 0x34c) == 0x44)
  __CPROVER_ensures(__CPROVER_return_value == ghost_badchan)
  __CPROVER_assigns();
struct Channel *hSeekChannel(const char *name)
  __CPROVER_requires(name == ghost_name)
  __CPROVER_ensures(__CPROVER_return_value == ghost_chan)
  __CPROVER_assigns();
int check_target_limit(struct Client *sptr, struct Client *acptr, struct Channel *chptr)
  __CPROVER_requires(sptr == ghost_sptr && !acptr && chptr == ghost_chan)
  __CPROVER_ensures((__CPROVER_return_value != 0) == ghost_hit)
  __CPROVER_assigns();

static int spec_key_is(const char *word) { return ghost_key != 0 && spec_eq(ghost_key, word) != 0; }
static int spec_badchan(void)
{
  struct Gline *g = ghost_badchan;
  return g && (((g->gl_flags & 0x1) && g->gl_state != GLOCAL_DEACTIVATED) || g->gl_state == GLOCAL_ACTIVATED);
}
/* the name is one a channel can have, the sender has room for another channel, and the name is not forbidden */
static int spec_admissible(void)
{
  if ((*ghost_name != '#' && *ghost_name != '&') || !(uf_chattr(ghost_name) & NTL_IRCCH)) return 0;
  if (ghost_sptr->cli_user->joined >= uf_fint(FEAT_MAXCHANNELSPERUSER) && !SPEC_PRIV(ghost_sptr, PRIV_CHAN_LIMIT)) return 0;
  return !spec_badchan() || spec_anyop(ghost_sptr);
}
static int spec_may_create(void)
{
  int max = uf_fint(FEAT_CHANNELLEN);
  if (!spec_admissible()) return 0;
  if (*ghost_name == '&' && !uf_fbool(FEAT_LOCAL_CHANNELS)) return 0;
  return uf_length(ghost_name) <= (unsigned long)(long)(max < 200 ? max : 200);
}
/* the status someone joining an existing channel takes */
static int spec_entry(struct Channel *ch)
{
  if (spec_key_is(ch->mode.apass)) return 0x10001;
  if (spec_key_is(ch->mode.upass)) return 0x1;
  if (ch->users == 0 && !ch->mode.apass[0]) return 0x1;
  return 0x4;
}
static int spec_open(struct Channel *ch)
{
  unsigned mode = ch->mode.mode;
  if (rec_invited(ghost_sptr->cli_user->invited, ch)) return 1;
  if (mode & 0x40) return 0;
  if (ch->mode.limit && ch->users >= ch->mode.limit) return 0;
  if ((mode & CH_REGONLY) && !spec_account(ghost_sptr)) return 0;
  if (uf_banned(ghost_sptr, ch->banlist)) return 0;
  if (ch->mode.key[0] && !spec_key_is(ch->mode.key)) return 0;
  return !(mode & CH_TLSONLY) || spec_tls(ghost_sptr);
}
static int spec_overrides(struct Channel *ch)
{
  return ch->chname[0] == '&' && SPEC_PRIV(ghost_sptr, PRIV_WALK_LCHAN) && spec_key_is("OVERRIDE");
}
static int spec_may_enter(struct Channel *ch)
{
  if (spec_link(ch, ghost_sptr)) return 0;
  if (ghost_hit && uf_fbool(FEAT_JOIN_TARGET)) return 0;
  if (spec_entry(ch) & 1) return 1;
  if (spec_overrides(ch)) return !spec_open(ch) || spec_eq(ch->mode.key, "OVERRIDE") || spec_eq(ch->mode.apass, "OVERRIDE") || spec_eq(ch->mode.upass, "OVERRIDE");
  return spec_open(ch) != 0;
}
static int spec_late(void) { return ghost_hit && !uf_fbool(FEAT_JOIN_TARGET) ? 0x80000 : 0; }
/* the event at hand is settled: joined, or not to be joined */
static int spec_settled(void)
{
  if (!ghost_name) return 1;
  if (ghost_haskey != 0 && !ghost_keyed) return 0;
  if (ghost_did) return ghost_uninvited == 1 && ghost_opped == (!ghost_made && (ghost_flags & 1));
  if (ghost_made) return ghost_hit && uf_fbool(FEAT_JOIN_TARGET);
  if (!ghost_chan) return !spec_may_create() || ghost_refused;
  return !spec_admissible() || !spec_may_enter(ghost_chan);
}
struct Channel *get_channel(struct Client *cptr, char *chname, ChannelGetType flag)
  __CPROVER_requires(chname == ghost_name && flag == CGT_CREATE && !ghost_chan && spec_may_create())
  __CPROVER_ensures(ghost_made == (__CPROVER_return_value != 0) && ghost_refused == !ghost_made && ghost_chan == __CPROVER_return_value)
  __CPROVER_assigns(ghost_made, ghost_refused, ghost_chan);
int destruct_channel(struct Channel *chptr)
  __CPROVER_requires(ghost_made == 1 && chptr == ghost_chan && !ghost_did)
  __CPROVER_ensures(1)
  __CPROVER_assigns();

char *strchr(const char *s, int c)
  __CPROVER_requires(ghost_name && s && s == ghost_keys && c == ',' && !ghost_keyed)
  __CPROVER_ensures(!__CPROVER_return_value || *__CPROVER_return_value == ',')
  __CPROVER_ensures(__CPROVER_return_value != s || *s == ',')
  __CPROVER_ensures((__CPROVER_return_value == s) == (*s == ','))
  __CPROVER_ensures(ghost_keyed == 1 && ghost_comma == __CPROVER_return_value && ghost_key == (*s && *s != ',' ? s : (char *)0))
  __CPROVER_ensures(ghost_keys == (__CPROVER_return_value ? __CPROVER_return_value + 1 : (char *)0))
  __CPROVER_assigns(ghost_keyed, ghost_comma, ghost_key, ghost_keys);
char *ircd_strtok(char **save, char *str, char *fs)
  __CPROVER_requires(spec_settled())
  __CPROVER_ensures(!__CPROVER_return_value || *__CPROVER_return_value)
  __CPROVER_ensures(ghost_name == __CPROVER_return_value && ghost_key == 0 && ghost_comma == 0)
  __CPROVER_ensures(ghost_did == 0 && ghost_uninvited == 0 && ghost_opped == 0 && ghost_made == 0 && ghost_refused == 0 && ghost_keyed == 0)
  __CPROVER_ensures(ghost_haskey == (ghost_keys && *ghost_keys) && (ghost_hit == 0 || ghost_hit == 1))
  __CPROVER_assigns(*save) __CPROVER_assigns(ghost_name, ghost_key, ghost_comma, ghost_chan, ghost_badchan, ghost_hit, ghost_haskey, ghost_keyed, ghost_did, ghost_uninvited, ghost_opped, ghost_made, ghost_refused);
void joinbuf_init(struct JoinBuf *jbuf, struct Client *source, struct Client *connect, unsigned int type, char *comment, time_t create)
  __CPROVER_ensures(jbuf->jb_source == source && jbuf->jb_connect == connect && jbuf->jb_type == type)
  __CPROVER_assigns(jbuf->jb_source, jbuf->jb_connect, jbuf->jb_type);
void joinbuf_join(struct JoinBuf *jbuf, struct Channel *chan, unsigned int flags)
  __CPROVER_requires(jbuf->jb_source == ghost_sptr && (jbuf->jb_type == 0 || jbuf->jb_type == 1 || jbuf->jb_type == 3))
  __CPROVER_requires(jbuf->jb_type == 3 || (ghost_name && !ghost_did && chan && chan == ghost_chan && !(ghost_hit && uf_fbool(FEAT_JOIN_TARGET))))
  __CPROVER_requires(jbuf->jb_type != 1 || (ghost_made && flags == (unsigned)(0x10001 | spec_late())))
  __CPROVER_requires(jbuf->jb_type != 0 || (!ghost_made && spec_admissible()))
  __CPROVER_requires(jbuf->jb_type != 0 || spec_may_enter(chan))
  __CPROVER_requires(jbuf->jb_type != 0 || flags == (unsigned)(spec_entry(chan) | spec_late()))
  __CPROVER_ensures(jbuf->jb_type == 3 ? ghost_did == __CPROVER_old(ghost_did) && ghost_flags == __CPROVER_old(ghost_flags) : ghost_did == 1 && ghost_flags == (int)flags)
  __CPROVER_assigns(ghost_did, ghost_flags) JOIN_FRAME;
int joinbuf_flush(struct JoinBuf *jbuf)
  __CPROVER_ensures(ghost_flushed == (__CPROVER_old(ghost_flushed) | (jbuf->jb_type == 1 ? 1 : jbuf->jb_type == 0 ? 2 : 4)))
  __CPROVER_assigns(ghost_flushed);
void del_invite(struct Client *cptr, struct Channel *chptr)
  __CPROVER_requires(cptr == ghost_sptr && chptr == ghost_chan && ghost_did == 1)
  __CPROVER_ensures(ghost_uninvited == 1)
  __CPROVER_assigns(ghost_uninvited, verif_any_field(ghost_u->invited), verif_any_field(ghost_u->invites), verif_any_field(ghost_ch->invites), verif_any_field(ghost_l->next));
struct Channel *ghost_mb;
void modebuf_init(struct ModeBuf *mbuf, struct Client *source, struct Client *connect, struct Channel *chan, unsigned int dest)
  __CPROVER_requires(source == &me)
  __CPROVER_ensures(ghost_mb == chan)
  __CPROVER_assigns(ghost_mb);
void modebuf_mode_client(struct ModeBuf *mbuf, unsigned int mode, struct Client *client, int oplevel)
  __CPROVER_requires(ghost_did == 1 && !ghost_made && (ghost_flags & 1) && ghost_mb == ghost_chan && client == ghost_sptr && mode == 0x40000001u && !ghost_opped)
  __CPROVER_requires(oplevel == (ghost_chan->mode.apass[0] ? (ghost_flags & 0x10000 ? 0 : 1) : 999))
  __CPROVER_ensures(ghost_opped == 1)
  __CPROVER_assigns(ghost_opped);
int modebuf_flush(struct ModeBuf *mbuf)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
/* the topic and the names of the channel are told only to someone who got in */
int send_reply(struct Client *to, int reply, ...)
  __CPROVER_requires((reply != 332 && reply != 333) || (to == ghost_sptr && ghost_did && verif_va_ptr(0) == ghost_chan->chname))
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void do_names(struct Client *sptr, struct Channel *chptr, int filter)
  __CPROVER_requires(sptr == ghost_sptr && chptr == ghost_chan && ghost_did)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
static char *last0(struct Client *cptr, struct Client *sptr, char *chanlist)
  __CPROVER_requires(sptr == ghost_sptr)
  __CPROVER_ensures(ghost_did == __CPROVER_old(ghost_did) && (ghost_flushed & 3) == (__CPROVER_old(ghost_flushed) & 3))
  __CPROVER_assigns(ghost_did, ghost_flags, ghost_flushed) JOIN_FRAME;
void verif_inv_last0(struct JoinBuf *part, struct Client *sptr)
  __CPROVER_ensures(part->jb_type == 3 && part->jb_source == sptr && ghost_did == __CPROVER_old(ghost_did) && ghost_flushed == __CPROVER_old(ghost_flushed));
int m_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_sptr == sptr && cptr == sptr && spec_my_user(sptr) && !ghost_name && ghost_keys == parv[2] && ghost_flushed == 0)
  __CPROVER_ensures(spec_settled())
  __CPROVER_ensures(verif_old_int(parc < 2 || !*parv[1]) || (ghost_flushed & 3) == 3)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(EV_GHOSTS, ghost_flushed);
void verif_inv_m_join(char *name, char *keys, struct JoinBuf *join, struct JoinBuf *create, struct Client *sptr)
  __CPROVER_ensures(name == ghost_name && keys == ghost_keys && join->jb_type == 0 && create->jb_type == 1 && join->jb_source == sptr && create->jb_source == sptr && sptr == ghost_sptr)
  __CPROVER_ensures(!ghost_did && !ghost_uninvited && !ghost_opped && !ghost_made && !ghost_refused && !ghost_keyed && !ghost_key && !ghost_comma)
  __CPROVER_ensures(ghost_haskey == (ghost_keys && *ghost_keys) && (ghost_hit == 0 || ghost_hit == 1) && !(ghost_flushed & 3) && spec_my_user(sptr));
#include "ircd/m_join.c"
