/* C11, C12: taking apart a channel MODE (mode_parse and its helpers in channel.c).  The contracts follow the code, which
 * defines the parser state. */
#include "ircd/channel.c"
#include "verif.h"
#include "spec_chan.h"
#include "spec_str.h"
#define SPEC_PRIV(c, p) (((c)->cli_connect->con_privs.bits[(p) / 64] >> ((p) % 64)) & 1ul)
#define A 0x40000000u
#define D 0x20000000u
struct Client *uf_client(const char *name, int mask);
struct Client *uf_numuser(const char *yxx);
struct Client *uf_chase(const char *name);
int uf_atoi(const char *s);
unsigned long uf_strtoul(const char *s);
char *uf_strchr(const char *s, int c);
int ghost_k;                              /* any entry of the list of changes */
int ghost_oper_said;
struct Membership *ghost_member; struct Ban *ghost_ban; struct Channel *ghost_channel;
struct Membership *find_member_link(struct Channel *chptr, const struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == spec_link(chptr, cptr))
  __CPROVER_assigns();
struct Client *find_chasing(struct Client *sptr, const char *user, int *chasing)
  __CPROVER_ensures(__CPROVER_return_value == uf_chase(user))
  __CPROVER_requires(!chasing)
  __CPROVER_assigns();
struct Client *findNUser(const char *yxx)
  __CPROVER_ensures(__CPROVER_return_value == uf_numuser(yxx))
  __CPROVER_assigns();
int atoi(const char *s)
  __CPROVER_ensures(__CPROVER_return_value == uf_atoi(s))
  __CPROVER_assigns();
unsigned long strtoul(const char *s, char **end, int base)
  __CPROVER_ensures(__CPROVER_return_value == uf_strtoul(s))
  __CPROVER_assigns();
char *strchr(const char *s, int c)
  __CPROVER_requires(c == ':' || c == ' ')
  __CPROVER_ensures(__CPROVER_return_value == uf_strchr(s, c))
  __CPROVER_ensures(!__CPROVER_return_value || (__CPROVER_return_value >= s && __CPROVER_return_value < s + 512))
  __CPROVER_assigns();
int ircd_strcmp(const char *a, const char *b)
  __CPROVER_ensures(spec_sign(__CPROVER_return_value) == rec_order(a, b))
  __CPROVER_assigns();
/* the source of the MODE is not entitled to change anything */
#define OUTSIDER(st) ((st)->flags & 0x30u)
/* is there a parameter left to take */
static int spec_arg(struct ParseState *st) { return !(spec_my_user(st->sptr) && st->max_args <= 0) && st->parc > 0; }
static const char *spec_param(struct ParseState *st) { return st->parv[st->args_used]; }
static void send_notoper(struct ParseState *state)
  __CPROVER_ensures(state->done == (__CPROVER_old(state->done) | DONE_NOTOPER))
  __CPROVER_assigns(state->done);
#define FLUSH_FRAME verif_any_bits(ghost_channel->mode.mode, 0x6400000)   /* flushing may touch +d and +z only */
void modebuf_mode(struct ModeBuf *mbuf, unsigned int mode)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void modebuf_mode_uint(struct ModeBuf *mbuf, unsigned int mode, unsigned int uint)
  __CPROVER_ensures(1)
  __CPROVER_assigns(FLUSH_FRAME);
void modebuf_mode_string(struct ModeBuf *mbuf, unsigned int mode, char *string, int free)
  __CPROVER_ensures(1)
  __CPROVER_assigns(FLUSH_FRAME);
#define PARAM_STEP ((__CPROVER_old(state->done) & ~state->done) == 0 && state->parc >= 0 && state->args_used - __CPROVER_old(state->args_used) == __CPROVER_old(state->parc) - state->parc && state->args_used - __CPROVER_old(state->args_used) >= 0)
#define PARAM_FRAME state->args_used, state->parc, state->max_args, state->done

/* --- +o, +v --- */
static int rec_slot(struct ParseState *st, int i, struct Client *c, unsigned flag)
{
  if (i >= 15) return 15;
  if (!st->cli_change[i].flag) return i;
  if (st->cli_change[i].client == c && (st->cli_change[i].flag & flag)) return i;
  return rec_slot(st, i + 1, c, flag);
}
static struct Client *spec_subject(struct ParseState *st, const char *arg) { return spec_my_user(st->sptr) ? uf_chase(arg) : uf_numuser(arg); }
/* the op level asked for is the asker's to give */
static int spec_level_refused(struct ParseState *st, unsigned flag, int level)
{
  if (flag == 2 || st->dir == D || (st->flags & 4) || !st->member) return 0;
  return level < st->member->oplevel || (level == st->member->oplevel && st->member->oplevel < 999) || level > 999;
}
static unsigned short spec_asked_level(struct ParseState *st, unsigned flag, const char *arg, int level, int given, struct Client *c)
{
  struct Membership *m = spec_link(st->chptr, c);
  if ((st->flags & 8) && st->dir == D && flag == 1 && m) return m->oplevel;
  if (!given || (spec_my_user(st->sptr) && (flag == 2 || st->dir == D || level > 999))) return 1000;
  return (unsigned short)level;
}

static int spec_given(struct ParseState *st, const char *arg) { return spec_my_user(st->sptr) ? uf_strchr(arg, ':') != 0 : arg[5] == ':'; }
static int spec_wanted(struct ParseState *st, const char *arg) { return spec_my_user(st->sptr) ? uf_atoi(uf_strchr(arg, ':') + 1) : uf_atoi(arg + 6); }
/* the change goes into the list of changes at ghost_k */
static int spec_stored(struct ParseState *st, unsigned flag, const char *arg)
{
  struct Client *c = spec_subject(st, arg);
  if (OUTSIDER(st) || !spec_arg(st) || !c) return 0;
  if (spec_my_user(st->sptr) && spec_given(st, arg) && spec_level_refused(st, flag, spec_wanted(st, arg))) return 0;
  return rec_slot(st, 0, c, flag) == ghost_k;
}
#define OLDP(e) verif_old_ptr(e)
#define OLDI(e) verif_old_int(e)
static void mode_parse_client(struct ParseState *state, int *flag_p)
  __CPROVER_requires((*flag_p == 1 || *flag_p == 2) && (state->dir == A || state->dir == D) && ghost_k >= 0 && ghost_k < 15)
  __CPROVER_ensures(OLDI(spec_stored(state, *flag_p, spec_param(state)))
    ? state->cli_change[ghost_k].flag == (unsigned)OLDI(state->dir | *flag_p)
      && state->cli_change[ghost_k].client == OLDP(spec_subject(state, spec_param(state)))
      && state->cli_change[ghost_k].oplevel == (unsigned short)OLDI(spec_asked_level(state, *flag_p, spec_param(state), spec_wanted(state, spec_param(state)), spec_given(state, spec_param(state)), spec_subject(state, spec_param(state))))
    : state->cli_change[ghost_k].flag == (unsigned)OLDI(state->cli_change[ghost_k].flag) && state->cli_change[ghost_k].client == OLDP(state->cli_change[ghost_k].client) && state->cli_change[ghost_k].oplevel == (unsigned short)OLDI(state->cli_change[ghost_k].oplevel))
  __CPROVER_requires(state->parc >= 0)
  __CPROVER_ensures(PARAM_STEP)
  __CPROVER_assigns(PARAM_FRAME)
  __CPROVER_assigns(!OUTSIDER(state): state->cli_change, verif_text_upto(state->parv[state->args_used], 512));
void verif_inv_mode_parse_client(int i, struct ParseState *state, struct Client *acptr, int *flag_p)
  __CPROVER_ensures(i >= 0 && i <= 15 && rec_slot(state, i, acptr, *flag_p) == rec_slot(state, 0, acptr, *flag_p));

/* --- +l --- */
static unsigned spec_asked_limit(struct ParseState *st) { return st->dir == A ? (unsigned)uf_strtoul(spec_param(st)) : 0; }
static int spec_limit_changes(struct ParseState *st, unsigned flag)
{
  struct Channel *ch = st->chptr;
  if (OUTSIDER(st) || !(st->flags & 1) || !st->mbuf || (st->done & DONE_LIMIT)) return 0;
  if (st->dir == D) return ch->mode.limit != 0;
  if (!spec_arg(st) || (int)spec_asked_limit(st) < 0) return 0;
  if (!(st->flags & 0x40) && (!spec_asked_limit(st) || spec_asked_limit(st) == ch->mode.limit)) return 0;
  return !((st->flags & 0x80) && (ch->mode.mode & flag) && ch->mode.limit < spec_asked_limit(st));
}
static void mode_parse_limit(struct ParseState *state, int *flag_p)
  __CPROVER_requires(*flag_p == 0x400 && (state->dir == A || state->dir == D))
  __CPROVER_ensures(OLDI(spec_limit_changes(state, 0x400))
    ? state->chptr->mode.limit == (unsigned)OLDI(spec_asked_limit(state)) && (state->chptr->mode.mode & ~0x6400000) == (unsigned)OLDI((state->dir == A ? state->chptr->mode.mode | 0x400 : state->chptr->mode.mode & ~0x400) & ~0x6400000)
    : state->chptr->mode.limit == __CPROVER_old(state->chptr->mode.limit) && (state->chptr->mode.mode & ~0x6400000) == (__CPROVER_old(state->chptr->mode.mode) & ~0x6400000))
  __CPROVER_requires(state->parc >= 0)
  __CPROVER_ensures(PARAM_STEP)
  __CPROVER_assigns(PARAM_FRAME)
  __CPROVER_assigns(!OUTSIDER(state): FLUSH_FRAME)
  __CPROVER_assigns((!OUTSIDER(state) && (state->flags & 1)): state->chptr->mode.limit, state->chptr->mode.mode);

/* --- keys and passwords --- */
static int rec_clean(const char *s, int i)
{
  if (i > 23) return 0;
  if (!s[i]) return 1;
  if ((unsigned char)s[i] <= ' ' || s[i] == ',') return 0;
  return rec_clean(s, i + 1);
}
static int spec_clean(const char *s) { return s[0] && s[0] != ':' && rec_clean(s, 0); }
static int is_clean_key(struct ParseState *state, char *s, char *command)
  __CPROVER_ensures((__CPROVER_return_value != 0) == spec_clean(s))
  __CPROVER_assigns();
void verif_inv_is_clean_key(int ii, const char *s)
  __CPROVER_ensures(ii >= 0 && ii <= 24 && rec_clean(s, ii) == rec_clean(s, 0));
char *ghost_dst; const char *ghost_src;      /* the last bounded copy */
char *ircd_strncpy(char *s1, const char *s2, size_t n)
  __CPROVER_ensures(ghost_dst == s1 && ghost_src == s2 && (n == 23 || n == 15))
  __CPROVER_assigns(verif_text_upto(s1, n + 1), ghost_dst, ghost_src);
/* the direction is not used up by an earlier change in the same message */
static int spec_fresh(struct ParseState *st, unsigned added, unsigned removed)
{
  return st->dir == A ? !(st->done & added) : !(st->done & (added | removed));
}
static int spec_key_changes(struct ParseState *st, const char *arg)
{
  char *key = st->chptr->mode.key;
  if (OUTSIDER(st) || !(st->flags & 1) || !st->mbuf || !spec_arg(st) || !spec_fresh(st, DONE_KEY_ADD, DONE_KEY_DEL) || !spec_clean(arg)) return 0;
  if ((st->flags & 0x80) && *key && rec_order(key, arg) <= 0) return 0;
  if (!(st->flags & 4) && (st->dir == A ? *key != 0 : rec_order(key, arg) != 0)) return 0;
  return !(!(st->flags & 0x40) && st->dir == A && rec_order(key, arg) == 0);
}
static void mode_parse_key(struct ParseState *state, int *flag_p)
  __CPROVER_requires((state->dir == A || state->dir == D))
  __CPROVER_ensures(OLDI(spec_key_changes(state, spec_param(state)))
    ? (OLDI(state->dir == A) ? ghost_dst == OLDP(state->chptr->mode.key) && ghost_src == OLDP(spec_param(state)) : state->chptr->mode.key[0] == 0 && ghost_dst == __CPROVER_old(ghost_dst))
    : ghost_dst == __CPROVER_old(ghost_dst))
  __CPROVER_requires(state->parc >= 0)
  __CPROVER_ensures(PARAM_STEP)
  __CPROVER_assigns(PARAM_FRAME)
  __CPROVER_assigns(!OUTSIDER(state): FLUSH_FRAME)
  __CPROVER_assigns(spec_key_changes(state, spec_param(state)): verif_text_upto(state->chptr->mode.key, 24), ghost_dst, ghost_src);

/* the channel manager: an opped member at level 0 */
static int spec_manager(struct Membership *m) { return m && (m->status & 0x10000); }
/* a local user who changes things in his own right does so as a member */
#define HAS_STANDING(st) (!spec_my_user((st)->sptr) || OUTSIDER(st) || ((st)->flags & 4) || (st)->member)
static int spec_upass_changes(struct ParseState *st, const char *arg)
{
  char *up = st->chptr->mode.upass, *ap = st->chptr->mode.apass; int force = (st->flags & 4) != 0;
  if (OUTSIDER(st) || !(st->flags & 1) || !st->mbuf || !spec_arg(st) || !spec_fresh(st, DONE_UPASS_ADD, DONE_UPASS_DEL) || !spec_clean(arg)) return 0;
  if (spec_my_user(st->sptr) && !(force ? SPEC_PRIV(st->sptr, PRIV_APASS_OPMODE) : spec_manager(st->member))) return 0;
  if (!force && st->dir == A && (!*ap || rec_order(ap, arg) == 0 || *up)) return 0;
  if (!force && st->dir == D && rec_order(up, arg) != 0) return 0;
  if (!(st->flags & 0x40) && st->dir == A && rec_order(up, arg) == 0) return 0;
  return !((st->flags & 0x80) && *up && rec_order(up, arg) <= 0);
}
static void mode_parse_upass(struct ParseState *state, int *flag_p)
  __CPROVER_requires(HAS_STANDING(state) && (state->dir == A || state->dir == D))
  __CPROVER_ensures(OLDI(spec_upass_changes(state, spec_param(state)))
    ? (OLDI(state->dir == A) ? ghost_dst == OLDP(state->chptr->mode.upass) && ghost_src == OLDP(spec_param(state)) : state->chptr->mode.upass[0] == 0 && ghost_dst == __CPROVER_old(ghost_dst))
    : ghost_dst == __CPROVER_old(ghost_dst))
  __CPROVER_requires(state->parc >= 0)
  __CPROVER_ensures(PARAM_STEP)
  __CPROVER_assigns(PARAM_FRAME)
  __CPROVER_assigns(!OUTSIDER(state): FLUSH_FRAME)
  __CPROVER_assigns(spec_upass_changes(state, spec_param(state)): verif_text_upto(state->chptr->mode.upass, 24), ghost_dst, ghost_src);
time_t ghost_now;
static int spec_apass_changes(struct ParseState *st, const char *arg)
{
  char *up = st->chptr->mode.upass, *ap = st->chptr->mode.apass; int force = (st->flags & 4) != 0;
  if (OUTSIDER(st) || !(st->flags & 1) || !st->mbuf || !spec_arg(st) || !spec_fresh(st, DONE_APASS_ADD, DONE_APASS_DEL) || !spec_clean(arg)) return 0;
  if (spec_my_user(st->sptr)) {
    if (!(force ? SPEC_PRIV(st->sptr, PRIV_APASS_OPMODE) : spec_manager(st->member))) return 0;
    if (!force && (st->dir == A ? *ap != 0 : *up != 0 || rec_order(ap, arg) != 0)) return 0;
    if (st->dir == D && !spec_anyop(st->sptr) && CurrentTime + TSoffset - st->chptr->creationtime >= 172800) return 0;
  }
  if (!(st->flags & 0x40) && st->dir == A && rec_order(ap, arg) == 0) return 0;
  return !((st->flags & 0x80) && *ap && rec_order(ap, arg) <= 0);
}
static void mode_parse_apass(struct ParseState *state, int *flag_p)
  __CPROVER_requires(HAS_STANDING(state) && (state->dir == A || state->dir == D))
  __CPROVER_ensures(OLDI(spec_apass_changes(state, spec_param(state)))
    ? (OLDI(state->dir == A)
       ? (OLDI(!state->chptr->mode.apass[0] || (state->flags & 0x80)) ? ghost_dst == OLDP(state->chptr->mode.apass) && ghost_src == OLDP(spec_param(state)) : ghost_dst == __CPROVER_old(ghost_dst)) && (!state->member || state->member->oplevel == 0)
       : state->chptr->mode.apass[0] == 0 && state->chptr->mode.upass[0] == 0 && ghost_dst == __CPROVER_old(ghost_dst))
    : ghost_dst == __CPROVER_old(ghost_dst))
  __CPROVER_requires(state->parc >= 0)
  __CPROVER_ensures(PARAM_STEP)
  __CPROVER_assigns(PARAM_FRAME)
  __CPROVER_assigns(!OUTSIDER(state): FLUSH_FRAME)
  __CPROVER_assigns(spec_apass_changes(state, spec_param(state)): verif_text_upto(state->chptr->mode.apass, 24), verif_text_upto(state->chptr->mode.upass, 24), ghost_dst, ghost_src, verif_any_field(ghost_member->oplevel));

/* --- the modes without a parameter --- */
static int spec_mode_taken(struct ParseState *st, unsigned f)
{
  return !OUTSIDER(st) && st->mbuf && !(f == 0x2000 && !(st->flags & 4) && spec_my_user(st->sptr));
}
static unsigned spec_other(unsigned f) { return f & 8 ? 4 : f & 4 ? 8 : 0; }
static unsigned spec_add(struct ParseState *st, unsigned f)
{
  return !spec_mode_taken(st, f) ? st->add : st->dir == A ? (st->add | f) & ~spec_other(f) : st->add & ~f;
}
static unsigned spec_del(struct ParseState *st, unsigned f)
{
  return !spec_mode_taken(st, f) ? st->del : st->dir == A ? (st->del & ~f) | spec_other(f) : st->del | f;
}
static void mode_parse_mode(struct ParseState *state, int *flag_p)
  __CPROVER_requires((state->dir == A || state->dir == D) && (*flag_p & (*flag_p - 1)) == 0 && !(state->add & state->del) && (state->add & 12) != 12)
  __CPROVER_ensures(state->add == (unsigned)OLDI(spec_add(state, *flag_p)) && state->del == (unsigned)OLDI(spec_del(state, *flag_p)))
  __CPROVER_ensures(!(state->add & state->del) && (state->add & 12) != 12 && (__CPROVER_old(state->done) & ~state->done) == 0)
  __CPROVER_assigns(state->add, state->del, state->done);

/* --- bans --- */
int ghost_pending;                        /* bans that live in the parser state are linked into the channel's list */
int ghost_stale;                          /* the ban list was changed and what is remembered per member is out of date */
#define BAN_FRAME verif_any_field(ghost_ban->flags), verif_any_field(ghost_ban->next), verif_any_field(ghost_channel->banlist)
#define INVITE_FRAME verif_any_field(ghost_channel->invites)
char *pretty_mask(char *mask)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
char *collapse(char *mask)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
static void set_ban_mask(struct Ban *ban, const char *banstr)
  __CPROVER_ensures(1)
  __CPROVER_assigns(ban->banstr, ban->nu_len, ban->address, ban->addrbits, ban->flags);
int apply_ban(struct Ban **banlist, struct Ban *newban, int do_free)
  __CPROVER_requires(!do_free && banlist == &ghost_channel->banlist)
  __CPROVER_ensures((newban->flags & 0x8000) ? ghost_pending == (__CPROVER_return_value == 0 || __CPROVER_old(ghost_pending)) : ghost_pending == __CPROVER_old(ghost_pending))
  __CPROVER_assigns(BAN_FRAME, ghost_pending);
static void send_ban_list(struct Client *cptr, struct Channel *chptr)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
static void mode_parse_ban(struct ParseState *state, int *flag_p)
  __CPROVER_requires(state->chptr == ghost_channel && (state->dir == A || state->dir == D) && state->numbans >= 0 && state->numbans < 15 && (!ghost_pending || (state->done & DONE_BANCLEAN)))
  __CPROVER_requires(state->parc >= 0)
  __CPROVER_ensures(PARAM_STEP && state->numbans >= 0 && state->numbans - __CPROVER_old(state->numbans) <= state->args_used - __CPROVER_old(state->args_used))
  __CPROVER_ensures(OUTSIDER(state) ? ghost_pending == __CPROVER_old(ghost_pending) : !ghost_pending || (state->done & DONE_BANCLEAN))
  __CPROVER_ensures(((state->done ^ __CPROVER_old(state->done)) & ~(unsigned)(DONE_BANLIST | DONE_BANCLEAN | DONE_NOTOPER)) == 0)
  __CPROVER_assigns(PARAM_FRAME)
  __CPROVER_assigns(!OUTSIDER(state): BAN_FRAME, state->banlist, state->numbans, ghost_pending, ghost_dst, ghost_src, verif_text_upto(state->parv[state->args_used], 512));
void verif_inv_mode_parse_ban(struct ParseState *state)
  __CPROVER_ensures(1);

static void mode_drop_bans(struct ParseState *state)
  __CPROVER_requires(state->chptr == ghost_channel)
#ifdef CALLER
  __CPROVER_ensures(ghost_pending == 0)                                         /* assumed, as for mode_process_bans */
#else
  __CPROVER_ensures(1)
#endif
  __CPROVER_assigns(BAN_FRAME, ghost_pending);
int ghost_touched;                        /* how many bans were made or freed (fewer than 2^31 per message) */
void mode_ban_invalidate(struct Channel *chan)
  __CPROVER_requires(chan == ghost_channel)
  __CPROVER_ensures(ghost_stale == 0)
  __CPROVER_assigns(ghost_stale, verif_any_bits(ghost_member->status, 0x1800));
void free_ban(struct Ban *ban)
  __CPROVER_ensures(ghost_stale == 1 && ghost_touched == __CPROVER_old(ghost_touched) + 1 && ghost_touched > 0)
  __CPROVER_assigns(ghost_stale, ghost_touched, verif_any_field(ghost_ban->next));
struct Ban *make_ban(const char *banstr)
  __CPROVER_ensures(ghost_stale == 1 && ghost_touched == __CPROVER_old(ghost_touched) + 1 && ghost_touched > 0)
  __CPROVER_assigns(ghost_stale, ghost_touched);
#define BANS_FRAME BAN_FRAME, verif_any_field(ghost_ban->when), ghost_pending, FLUSH_FRAME
static void mode_process_bans(struct ParseState *state)
  __CPROVER_requires(state->chptr == ghost_channel && ghost_stale == 0 && ghost_touched == 0)
  __CPROVER_ensures(ghost_stale == 0)                                           /* what members' "banned" marks rest on is up to date */
  __CPROVER_ensures((__CPROVER_old(state->flags) & 1) || ghost_touched == 0)    /* without authority no ban comes or goes */
#ifdef CALLER
  __CPROVER_ensures(ghost_pending == 0)                                         /* assumed: the parser's own bans are off the list again */
#endif
  __CPROVER_assigns(BANS_FRAME)
  __CPROVER_assigns((state->flags & 1): ghost_stale, ghost_touched, verif_any_bits(ghost_member->status, 0x1800));
void verif_inv_mode_process_bans(struct ParseState *state, int changed)
  __CPROVER_ensures(changed >= 0 && changed == ghost_touched && (changed > 0) == (ghost_stale != 0) && ((state->flags & 1) || !ghost_touched));

/* --- the whole change --- */
unsigned ghost_flags, ghost_mode0; int ghost_args; struct Client *ghost_source, *ghost_cptr; struct ModeBuf *ghost_mbuf; struct Membership *ghost_actor;
#define LOCAL_PLAIN(st) (spec_my_user((st)->sptr) && !((st)->flags & 4))
void mode_invite_clear(struct Channel *chan)
  __CPROVER_ensures(1)
  __CPROVER_assigns(INVITE_FRAME);
static void mode_process_clients(struct ParseState *state)
  __CPROVER_requires(state->chptr == ghost_channel)
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_any_field(ghost_member->status), verif_any_field(ghost_member->oplevel), verif_any_bits(ghost_channel->mode.mode, 0x400000));
#define NO_STANDING(flags) ((flags) & 0x30u)
int mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr, struct Channel *chptr, int parc, char *parv[], unsigned int flags, struct Membership *member)
  __CPROVER_requires(chptr == ghost_channel && parc >= 1 && parc <= 15 && ghost_args == parc && ghost_flags == flags && ghost_source == sptr && ghost_mode0 == chptr->mode.mode && ghost_cptr == cptr && ghost_mbuf == mbuf && ghost_actor == member && ghost_k >= 0 && ghost_k < 15 && ghost_pending == 0 && ghost_stale == 0 && ghost_touched == 0)
  __CPROVER_requires(NO_STANDING(flags) ? !(flags & 1) : mbuf != 0)
  __CPROVER_requires(NO_STANDING(flags) || !spec_my_user(sptr) || (flags & 4) || member)
  __CPROVER_ensures(ghost_pending == 0 && ghost_stale == 0)
  __CPROVER_ensures((flags & 1) || ((chptr->mode.mode ^ __CPROVER_old(chptr->mode.mode)) & ~0x6400000u) == 0)
  __CPROVER_ensures(!verif_old_int(spec_my_user(sptr)) || (flags & 4) || ((chptr->mode.mode ^ __CPROVER_old(chptr->mode.mode)) & 0x2000) == 0)
  __CPROVER_ensures((__CPROVER_old(chptr->mode.mode) & 12) == 12 || (chptr->mode.mode & 12) != 12)
  __CPROVER_assigns(ghost_dst, ghost_src, ghost_pending, ghost_stale, ghost_touched)
  __CPROVER_assigns(!NO_STANDING(flags): BANS_FRAME, INVITE_FRAME, verif_any_field(ghost_channel->mode.mode), verif_any_field(ghost_channel->mode.limit), chptr->mode.key, chptr->mode.upass, chptr->mode.apass, chptr->creationtime)
  __CPROVER_assigns(!NO_STANDING(flags): verif_any_field(*ghost_src))
  __CPROVER_assigns(!NO_STANDING(flags): verif_any_field(ghost_member->status), verif_any_field(ghost_member->oplevel))
  __CPROVER_assigns(!NO_STANDING(flags): mbuf->mb_dest, mbuf->mb_add, mbuf->mb_rem, mbuf->mb_count);
#define SAME_STATE(st) (((ghost_channel->mode.mode ^ ghost_mode0) & ~(ghost_flags & 1 ? 0x6400400u : 0x6400000u)) == 0 && (st)->chptr == ghost_channel && (st)->sptr == ghost_source && (st)->cptr == ghost_cptr && (st)->mbuf == ghost_mbuf && (st)->member == ghost_actor && (((st)->flags ^ ghost_flags) & ~9u) == 0 && (!((st)->flags & 1) || (ghost_flags & 1)) && (st)->parc >= 0 && (st)->args_used + (st)->parc == ghost_args && (st)->numbans >= 0 && (st)->numbans < (st)->args_used \
  && ((st)->dir == A || (st)->dir == D) && !((st)->add & (st)->del) && ((st)->add & 12) != 12 && (!((st)->add & 8) || ((st)->del & 4)) && (!((st)->add & 4) || ((st)->del & 8)) \
  && (!LOCAL_PLAIN(st) || !(((st)->add | (st)->del) & 0x2000)) && (!ghost_pending || ((st)->done & DONE_BANCLEAN)) && (!NO_STANDING(ghost_flags) || !ghost_pending))
void verif_inv_mode_parse_words(struct ParseState *st, const char *modestr)
  __CPROVER_ensures(SAME_STATE(st));
void verif_inv_mode_parse_letters(struct ParseState *st, const char *modestr)
  __CPROVER_ensures(SAME_STATE(st));
