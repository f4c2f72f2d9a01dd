/* C26: what a G-line covers, who is removed when one is set, what a change of one does */
#include "c26_env.h"
#define NOW (CurrentTime + TSoffset)
static int spec_covers(struct Gline *g, struct Client *c, const char *host)
{
  if (g->gl_flags & GLINE_REALNAME) return uf_nomatch(g->gl_user + 2, c->cli_info) == 0;
  if (uf_nomatch(g->gl_user, c->cli_user->username)) return 0;
  if (g->gl_flags & GLINE_IPMASK) return uf_ipmask(&c->cli_ip, &g->gl_addr, g->gl_bits) != 0;
  return uf_nomatch(g->gl_host, host) == 0;
}
static int spec_active(struct Gline *g) { return g->gl_state == GLOCAL_ACTIVATED || ((g->gl_flags & GLINE_ACTIVE) && g->gl_state != GLOCAL_DEACTIVATED); }
static int spec_gone(struct Gline *g) { return g->gl_lifetime <= NOW || (g->gl_expire < NOW - 2592000 && g->gl_lastmod < NOW - 2592000); }
static int spec_hit(struct Gline *g, struct Client *c, unsigned flags)
{
  return !spec_gone(g) && g->gl_expire > NOW && spec_active(g) && !((flags & GLINE_GLOBAL) && (g->gl_flags & GLINE_LOCAL)) && !((flags & GLINE_LASTMOD) && !g->gl_lastmod)
    && spec_covers(g, c, c->cli_user->realhost);
}
/* the list as it is at the start: a record that has not been reached is as it was (a record dropped on the way is unlinked, others stay) */
int uf_hit(struct Gline *g);
struct Gline *uf_next(struct Gline *g);
static struct Gline *rec_hit(struct Gline *g)
{
  if (!g) return (struct Gline *)0;
  if (uf_hit(g)) return g;
  return rec_hit(uf_next(g));
}
struct Gline *ghost_hit; struct Client *ghost_c; unsigned ghost_flags;
void verif_at_gline(struct Gline *gl)
  __CPROVER_ensures((uf_hit(gl) != 0) == (spec_hit(gl, ghost_c, ghost_flags) != 0) && uf_next(gl) == gl->gl_next)
  __CPROVER_assigns();
void verif_inv_gline_lookup(struct Gline *gline, struct Client *cptr, unsigned flags)
  __CPROVER_ensures(ghost_hit == rec_hit(gline));
void gline_free(struct Gline *gline)
  __CPROVER_requires(spec_gone(gline))
  __CPROVER_ensures(1)
  __CPROVER_assigns(verif_any_field(gline->gl_next), GlobalGlineList, BadChanGlineList);
struct Gline *gline_lookup(struct Client *cptr, unsigned int flags)
  __CPROVER_requires(ghost_c == cptr && ghost_flags == flags && ghost_hit == rec_hit(GlobalGlineList))
  __CPROVER_ensures(__CPROVER_return_value == ghost_hit)
  __CPROVER_assigns(verif_any_field(GlobalGlineList->gl_next), verif_any_field(GlobalGlineList->gl_flags), verif_any_field(GlobalGlineList->gl_state), GlobalGlineList, BadChanGlineList);

/* everybody here who is covered is removed, and nobody else */
static int spec_caught(struct Gline *g, struct Client *c)
{
  return !uf_feature(FEAT_DISABLE_GLINES) && !(g->gl_flags & GLINE_BADCHAN) && spec_active(g) && c->cli_user && spec_covers(g, c, c->cli_connect->con_sockhost);
}
struct Gline *ghost_g;
int exit_client_msg(struct Client *cptr, struct Client *bcptr, struct Client *sptr, const char *pattern, ...)
  __CPROVER_requires(spec_caught(ghost_g, bcptr) && sptr == &me)
  __CPROVER_ensures(ghost_out == (bcptr == ghost_u ? 1 : __CPROVER_old(ghost_out)))
  __CPROVER_assigns(ghost_out);
void verif_inv_do_gline(int fd, struct Gline *gline)
  __CPROVER_ensures(fd >= -1 && fd <= HighestFd && (!ghost_out || spec_caught(gline, ghost_u)) && (fd >= ghost_fd || ghost_out == (spec_caught(gline, ghost_u) != 0)));
/* a change of a global G-line: the newer one stands */
int ghost_did, ghost_sent;
int gline_resend(struct Client *cptr, struct Gline *gline)
  __CPROVER_requires(gline == ghost_g && cptr == ghost_c && ghost_sent == 0)
  __CPROVER_ensures(ghost_sent == 1)
  __CPROVER_assigns(ghost_sent);
void sendcmdto_serv_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, const char *pattern, ...)
  __CPROVER_requires(ghost_sent == 0 && one == ghost_c && tok[0] == 'G' && tok[1] == 'L' && !tok[2])
#ifdef MAKE
  __CPROVER_requires(verif_va_int(0) == ((ghost_g->gl_flags & GLINE_ACTIVE) ? '+' : '-') && verif_va_ptr(1) == (void *)ghost_g->gl_user && (!ghost_g->gl_host || verif_va_ptr(3) == (void *)ghost_g->gl_host) && verif_va_ptr(7) == (void *)ghost_g->gl_reason)
#else
  __CPROVER_requires(verif_va_ptr(2) == (void *)ghost_g->gl_user && (!ghost_g->gl_host || verif_va_ptr(4) == (void *)ghost_g->gl_host))
#endif
  __CPROVER_ensures(ghost_sent == 2)
  __CPROVER_assigns(ghost_sent);
#ifdef MAKE
struct Gline *ghost_old;
#endif
#ifdef ADD
/* setting a G-line: what is recorded, sent on, and enforced */
int ghost_made;
int ghost_len;
#define ghost_long (ghost_len < 0 || (unsigned long)ghost_len > USERLEN + HOSTLEN + 2)
int ircd_snprintf(struct Client *dest, char *buf, size_t buf_len, const char *format, ...)
  __CPROVER_ensures(__CPROVER_return_value == ghost_len)
  __CPROVER_assigns(verif_text_upto(buf, 80));
#endif
#if defined ADD || defined MAKE
int uf_ipm(const char *s);
#define MADE(r) ((r) && (r)->gl_expire == expire && (r)->gl_lastmod == lastmod && (r)->gl_lifetime == lifetime && (r)->gl_state == GLOCAL_GLOBAL && ((r)->gl_flags & ~GLINE_IPMASK) == (flags & GLINE_MASK) && ((flags & GLINE_BADCHAN) ? BadChanGlineList : GlobalGlineList) == (r) && ((r)->gl_flags & GLINE_IPMASK ? 1 : 0) == (!(flags & GLINE_BADCHAN) && user[0] != '$' && uf_ipm(host)))
int ipmask_parse(const char *in, struct irc_in_addr *mask, unsigned char *bits_ptr)
  __CPROVER_requires(mask && bits_ptr)
  __CPROVER_ensures(__CPROVER_return_value == uf_ipm(in))
  __CPROVER_assigns(*mask, *bits_ptr);
#endif
#include "ircd/gline.c"
#ifdef ADD
static int do_gline(struct Client *cptr, struct Client *sptr, struct Gline *gline)
  __CPROVER_requires(gline == ghost_g && ghost_made == 1 && ghost_did == 0)
  __CPROVER_ensures(ghost_did == 1)
  __CPROVER_assigns(ghost_did);
static int gline_propagate(struct Client *cptr, struct Client *sptr, struct Gline *gline)
  __CPROVER_requires(gline == ghost_g && cptr == ghost_c && ghost_sent == 0 && ((gline->gl_flags & GLINE_LOCAL) || gline->gl_lastmod))
  __CPROVER_ensures(ghost_sent == (verif_old_int(gline->gl_flags & GLINE_LOCAL) ? 0 : 2))
  __CPROVER_assigns(ghost_sent);
static void canon_userhost(char *userhost, char **user_p, char **host_p, char *def_user)
  __CPROVER_ensures(*user_p && *host_p && (*user_p)[0] != '$')
  __CPROVER_assigns(*user_p, *host_p, verif_text_upto(userhost, 400));
static int count_users(char *mask, int flags) __CPROVER_ensures(1) __CPROVER_assigns();
static int count_realnames(const char *mask) __CPROVER_ensures(1) __CPROVER_assigns();
static int gline_checkmask(char *mask) __CPROVER_ensures(1) __CPROVER_assigns();
struct Client *ghost_s; int ghost_chan, ghost_local, ghost_real, ghost_force, ghost_active; long ghost_expire, ghost_lastmod, ghost_life;
static struct Gline *make_gline(char *user, char *host, char *reason, time_t expire, time_t lastmod, time_t lifetime, unsigned int flags)
  __CPROVER_requires(user && reason && ghost_made == 0 && (host || user[0] == '$' || (flags & GLINE_BADCHAN)))
  /* as asked for, for as long as asked for, in force unless it has run out */
  __CPROVER_requires(expire == ghost_expire && lastmod == ghost_lastmod && lifetime == (ghost_life ? ghost_life : ghost_expire) && (ghost_force || (expire > NOW && expire <= NOW + 604800)))
  __CPROVER_requires(((flags & GLINE_ACTIVE) != 0) == (ghost_active && expire > NOW) && ((flags & GLINE_LOCAL) != 0) == (ghost_local != 0) && ((flags & GLINE_BADCHAN) != 0) == (ghost_chan != 0) && ((flags & GLINE_REALNAME) != 0) == (ghost_real != 0))
  __CPROVER_requires(!(ghost_chan && ghost_local) || HasPriv(ghost_s, PRIV_LOCAL_BADCHAN))
  __CPROVER_ensures(ghost_made == 1 && __CPROVER_return_value == ghost_g && ghost_g)
  __CPROVER_ensures(MADE(__CPROVER_return_value))
  __CPROVER_assigns(ghost_made, ghost_g, GlobalGlineList, BadChanGlineList, verif_any_field(GlobalGlineList->gl_prev_p));
int gline_add(struct Client *cptr, struct Client *sptr, char *userhost, char *reason, time_t expire, time_t lastmod, time_t lifetime, unsigned int flags)
  __CPROVER_requires(cptr == ghost_c && sptr == ghost_s && sptr->cli_connect && ghost_made == 0 && ghost_did == 0 && ghost_sent == 0 && ((flags & GLINE_GLOBAL) != 0) == !(flags & GLINE_LOCAL) && ((flags & GLINE_LOCAL) || lastmod) && !(flags & (GLINE_BADCHAN | GLINE_REALNAME)) && sptr->cli_user && sptr->cli_user->server && reason && expire && CurrentTime > 0 && CurrentTime < 4000000000 && TSoffset > -1000000 && TSoffset < 1000000)
  __CPROVER_requires(ghost_expire == expire && ghost_lastmod == lastmod && ghost_life == lifetime && ghost_force == ((flags & GLINE_FORCE) != 0) && ghost_active == ((flags & GLINE_ACTIVE) != 0) && ghost_local == ((flags & GLINE_LOCAL) != 0) && ghost_chan == (userhost[0] == '#' || userhost[0] == '&') && ghost_real == (userhost[0] == '$' && userhost[1] == 'R'))
  __CPROVER_ensures(ghost_did == ghost_made && ghost_sent == (ghost_made && !ghost_local ? 2 : 0))
  /* what the network asks for is done */
  __CPROVER_ensures(!ghost_force || verif_old_int(userhost[0] == '#' || userhost[0] == '&' || userhost[0] == '$' || spec_is_user(sptr)) || ghost_made || ghost_long)
  __CPROVER_assigns(verif_everything(), ghost_made, ghost_did, ghost_sent, ghost_g);
#elif defined MAKE
static struct Gline *make_gline(char *user, char *host, char *reason, time_t expire, time_t lastmod, time_t lifetime, unsigned int flags)
  __CPROVER_requires(user && reason && (host || user[0] == '$' || (flags & GLINE_BADCHAN)) && expire && ghost_old == ((flags & GLINE_BADCHAN) ? BadChanGlineList : GlobalGlineList))
  __CPROVER_ensures(MADE(__CPROVER_return_value) && __CPROVER_return_value->gl_next == ghost_old && (!ghost_old || ghost_old->gl_prev_p == &__CPROVER_return_value->gl_next))
  __CPROVER_assigns(GlobalGlineList, BadChanGlineList, verif_any_field(GlobalGlineList->gl_prev_p));
static int gline_propagate(struct Client *cptr, struct Client *sptr, struct Gline *gline)
  __CPROVER_requires(gline == ghost_g && cptr == ghost_c && ghost_sent == 0 && ((gline->gl_flags & GLINE_LOCAL) || gline->gl_lastmod))
  __CPROVER_ensures(ghost_sent == (verif_old_int(gline->gl_flags & GLINE_LOCAL) ? 0 : 2))
  __CPROVER_assigns(ghost_sent);
#elif !defined MODIFY
static int do_gline(struct Client *cptr, struct Client *sptr, struct Gline *gline)
  __CPROVER_requires(LISTED && gline == ghost_g && ghost_out == 0)
  __CPROVER_ensures(ghost_out == verif_old_int(spec_caught(gline, ghost_u) != 0))
  __CPROVER_assigns(ghost_out);
#else
static int do_gline(struct Client *cptr, struct Client *sptr, struct Gline *gline)
  __CPROVER_requires(gline == ghost_g)
  __CPROVER_ensures(ghost_did == 1)
  __CPROVER_assigns(ghost_did);
#define LOCALLY(a) ((a) == GLINE_LOCAL_ACTIVATE || (a) == GLINE_LOCAL_DEACTIVATE)
#define BAD_EXPIRE(e, f) (((f) & GLINE_EXPIRE) && (e) && !((f) & GLINE_FORCE) && ((e) <= NOW || (e) > NOW + 604800))
#define NEWER(g, a, lm) (LOCALLY(a) || (g)->gl_lastmod < (lm))
#define TAKEN(g, a, e, lm, f) (NEWER(g, a, lm) && !BAD_EXPIRE(e, f))
#define LIVES(g, e, f) ((g)->gl_expire > NOW || (((f) & GLINE_EXPIRE) && (e) && (e) > NOW))
#define ACT(g) (((g)->gl_flags & GLINE_ACTIVE) != 0)
int gline_modify(struct Client *cptr, struct Client *sptr, struct Gline *gline, enum GlineAction action, char *reason, time_t expire, time_t lastmod, time_t lifetime, unsigned int flags)
  __CPROVER_requires(gline == ghost_g && cptr == ghost_c && ghost_did == 0 && ghost_sent == 0 && !(gline->gl_flags & GLINE_LOCAL) && gline->gl_reason && sptr->cli_user && sptr->cli_user->server && action >= 0 && action <= 4 && 0 <= gline->gl_state && gline->gl_state <= 2)
  __CPROVER_requires(((flags & GLINE_EXPIRE) || !expire) && CurrentTime > 0 && CurrentTime < 4000000000 && TSoffset > -1000000 && TSoffset < 1000000)
  /* the last change wins: an older one is answered with what is known, the same one changes nothing */
  __CPROVER_ensures(verif_old_int(TAKEN(gline, action, expire, lastmod, flags)) || (gline->gl_flags == __CPROVER_old(gline->gl_flags) && gline->gl_state == verif_old_int(gline->gl_state) && gline->gl_expire == __CPROVER_old(gline->gl_expire) && gline->gl_lifetime == __CPROVER_old(gline->gl_lifetime) && gline->gl_lastmod == __CPROVER_old(gline->gl_lastmod) && gline->gl_reason == verif_old_ptr(gline->gl_reason) && ghost_did == 0))
  __CPROVER_ensures(verif_old_int(NEWER(gline, action, lastmod)) || ghost_sent == verif_old_int(gline->gl_lastmod > lastmod && !SPEC_FLAG(cptr, FLAG_BURST) && !SPEC_FLAG(cptr, FLAG_BURST_ACK)))
  /* on and off, here or everywhere */
  __CPROVER_ensures(!verif_old_int(TAKEN(gline, action, expire, lastmod, flags) && LIVES(gline, expire, flags)) || action != GLINE_ACTIVATE || (ACT(gline) && (verif_old_int(ACT(gline)) || gline->gl_state == GLOCAL_GLOBAL)))
  __CPROVER_ensures(!verif_old_int(TAKEN(gline, action, expire, lastmod, flags) && LIVES(gline, expire, flags)) || action != GLINE_DEACTIVATE || (!ACT(gline) && (!verif_old_int(ACT(gline)) || gline->gl_state == GLOCAL_GLOBAL)))
  __CPROVER_ensures(!verif_old_int(TAKEN(gline, action, expire, lastmod, flags) && LIVES(gline, expire, flags)) || action != GLINE_LOCAL_ACTIVATE || gline->gl_state == GLOCAL_ACTIVATED)
  __CPROVER_ensures(!verif_old_int(TAKEN(gline, action, expire, lastmod, flags) && LIVES(gline, expire, flags)) || action != GLINE_LOCAL_DEACTIVATE || gline->gl_state == GLOCAL_DEACTIVATED)
  __CPROVER_ensures(action == GLINE_ACTIVATE || action == GLINE_DEACTIVATE || ACT(gline) == verif_old_int(ACT(gline)))
  __CPROVER_ensures(action != GLINE_MODIFY || gline->gl_state == verif_old_int(gline->gl_state))
  __CPROVER_ensures((gline->gl_flags & ~GLINE_ACTIVE) == verif_old_int(gline->gl_flags & ~GLINE_ACTIVE))
  /* until when, and when it was changed */
  __CPROVER_ensures(!verif_old_int(TAKEN(gline, action, expire, lastmod, flags)) || gline->gl_expire == (expire ? expire : __CPROVER_old(gline->gl_expire)))
  __CPROVER_ensures(gline->gl_lifetime >= __CPROVER_old(gline->gl_lifetime))
  __CPROVER_ensures(gline->gl_lastmod == __CPROVER_old(gline->gl_lastmod) || gline->gl_lastmod == lastmod)
  __CPROVER_ensures(LOCALLY(action) || !ghost_did || gline->gl_lastmod == lastmod)
  /* any change is passed on unless it is this server's own, and then whoever is covered goes */
  __CPROVER_ensures(!ghost_did || (ghost_sent == 2) == !verif_old_int(LOCALLY(action)) || (ACT(gline) == verif_old_int(ACT(gline)) && gline->gl_state == verif_old_int(gline->gl_state)))
  __CPROVER_ensures(ghost_did || (ACT(gline) == verif_old_int(ACT(gline)) && gline->gl_state == verif_old_int(gline->gl_state) && gline->gl_expire == __CPROVER_old(gline->gl_expire)))
  __CPROVER_ensures(ghost_sent != 2 || ghost_did)
  __CPROVER_assigns(ghost_did, ghost_sent, gline->gl_flags, gline->gl_state, gline->gl_expire, gline->gl_lifetime, gline->gl_lastmod, gline->gl_reason);
#endif
