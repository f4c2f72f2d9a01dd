/* C26: finding a G-line, telling a new server about them all, dropping one */
#include "c26_env.h"
#define NOW (CurrentTime + TSoffset)
static int spec_gone(struct Gline *g) { return g->gl_lifetime <= NOW || (g->gl_expire < NOW - 2592000 && g->gl_lastmod < NOW - 2592000); }
#if defined CUT
#define BESIDE(p, q) ((unsigned long)(p) >= (unsigned long)((q) + 1) || (unsigned long)(q) >= (unsigned long)((p) + 1))
char *uf_at(const char *s);
char *strchr(const char *s, int c)
  __CPROVER_requires(c == '@')
  __CPROVER_ensures(__CPROVER_return_value == uf_at(s))
  __CPROVER_assigns();
#elif defined FREE
struct Gline *ghost_freed;
void gline_free(struct Gline *gline)
  __CPROVER_requires(gline && (gline->gl_flags & GLINE_LOCAL) && !ghost_freed)
  __CPROVER_ensures(ghost_freed == gline)
  __CPROVER_assigns(verif_everything(), ghost_freed);
#else
const char *ghost_mask, *ghost_copy, *ghost_cu, *ghost_ch;
struct Gline *ghost_hit, *ghost_chan; unsigned ghost_flags;
static int spec_suits(struct Gline *g, unsigned flags)
{
  return !spec_gone(g) && !((flags & GLINE_GLOBAL) && (g->gl_flags & GLINE_LOCAL)) && !((flags & GLINE_LOCAL) && !(g->gl_flags & GLINE_LOCAL)) && !((flags & GLINE_LASTMOD) && !g->gl_lastmod);
}
static int spec_is_chan(struct Gline *g)
{
  return spec_suits(g, ghost_flags) && ((ghost_flags & GLINE_EXACT) ? uf_differ(g->gl_user, ghost_mask) == 0 : uf_nomatch(ghost_mask, g->gl_user) == 0);
}
static int spec_is(struct Gline *g)
{
  if (!spec_suits(g, ghost_flags) || !g->gl_host != !ghost_ch) return 0;
  if (ghost_flags & GLINE_EXACT) return (!ghost_ch || uf_differ(g->gl_host, ghost_ch) == 0) && uf_differ(g->gl_user, ghost_cu) == 0;
  return (!ghost_ch || uf_nomatch(ghost_ch, g->gl_host) == 0) && uf_nomatch(ghost_cu, g->gl_user) == 0;
}
/* the lists as they are at the start */
int uf_hit(struct Gline *g), uf_hit_chan(struct Gline *g), uf_tell(struct Gline *g);
struct Gline *uf_next(struct Gline *g);
static struct Gline *rec_hit(struct Gline *g) { if (!g) return (struct Gline *)0; if (uf_hit(g)) return g; return rec_hit(uf_next(g)); }
static struct Gline *rec_chan(struct Gline *g) { if (!g) return (struct Gline *)0; if (uf_hit_chan(g)) return g; return rec_chan(uf_next(g)); }
/* the ones a new server is told about: those of the network, known since when, and not run out */
static int spec_tell(struct Gline *g) { return !spec_gone(g) && !(g->gl_flags & GLINE_LOCAL) && g->gl_lastmod; }
struct Gline *ghost_g, *ghost_cur; struct Client *ghost_c; int ghost_sent;
static int rec_in(struct Gline *g) { if (!g) return 0; if (g == ghost_g) return 1; return rec_in(uf_next(g)); }
void verif_at_gline(struct Gline *gl)
  __CPROVER_ensures((uf_hit(gl) != 0) == (spec_is(gl) != 0) && (uf_hit_chan(gl) != 0) == (spec_is_chan(gl) != 0) && (uf_tell(gl) != 0) == (spec_tell(gl) != 0) && uf_next(gl) == gl->gl_next)
  __CPROVER_ensures(ghost_cur == gl && !(gl == ghost_g && rec_in(uf_next(gl))))
  __CPROVER_assigns(ghost_cur);
/* dropping a record that has run out: of the list heads, only the one it was first in moves on to the next */
void gline_free(struct Gline *gline)
  __CPROVER_requires(spec_gone(gline))
  __CPROVER_ensures(GlobalGlineList == __CPROVER_old(GlobalGlineList) || (gline == __CPROVER_old(GlobalGlineList) && GlobalGlineList == uf_next(gline)))
  __CPROVER_ensures(BadChanGlineList == __CPROVER_old(BadChanGlineList) || (gline == __CPROVER_old(BadChanGlineList) && BadChanGlineList == uf_next(gline)))
  __CPROVER_assigns(verif_any_field(gline->gl_next), GlobalGlineList, BadChanGlineList);
void verif_inv_gline_find_chan(struct Gline *gline) __CPROVER_ensures(ghost_chan == rec_chan(gline) && ghost_hit == rec_hit(GlobalGlineList));
void verif_inv_gline_find(struct Gline *gline, const char *user, const char *host) __CPROVER_ensures(ghost_hit == rec_hit(gline) && user == ghost_cu && host == ghost_ch);
int ghost_in_g, ghost_in_b;
#define DUE (ghost_g && uf_tell(ghost_g) != 0)
void verif_inv_gline_burst(struct Gline *gline, struct Client *cptr) __CPROVER_ensures(cptr == ghost_c && ghost_sent == (DUE && ghost_in_g && !rec_in(gline)) && !rec_in(BadChanGlineList) == !ghost_in_b && (!rec_in(gline) || ghost_in_g));
void verif_inv_gline_burst_chan(struct Gline *gline, struct Client *cptr) __CPROVER_ensures(cptr == ghost_c && ghost_sent == (DUE && (ghost_in_g || (ghost_in_b && !rec_in(gline)))) && (!rec_in(gline) || ghost_in_b));
char *strcpy(char *to, const char *from) __CPROVER_requires(from == ghost_mask) __CPROVER_ensures(ghost_copy == to) __CPROVER_assigns(ghost_copy);
static int spec_tell_now(struct Gline *g) { return !(g->gl_flags & GLINE_LOCAL) && g->gl_lastmod; }
#ifdef RESEND
#define IN_FORCE(g) 1
#else
#define IN_FORCE(g) ((g)->gl_expire > NOW)
#endif
static int spec_says(struct Gline *g, long sign, const char *user, const char *reason, unsigned long until, unsigned long changed, unsigned long lives)
{
  return (sign == '+') == ((g->gl_flags & GLINE_ACTIVE) && IN_FORCE(g)) && user == g->gl_user && reason == g->gl_reason && (unsigned)until == (unsigned)(g->gl_expire - NOW) && (unsigned)changed == (unsigned)g->gl_lastmod && (unsigned)lives == (unsigned)g->gl_lifetime;
}
void sendcmdto_one(struct Client *from, const char *cmd, const char *tok, struct Client *to, const char *pattern, ...)
  __CPROVER_requires(to == ghost_c && tok[0] == 'G' && tok[1] == 'L' && !tok[2] && from == &me)
#ifdef RESEND
  __CPROVER_requires(ghost_cur == ghost_g)
#endif
  __CPROVER_requires(spec_tell_now(ghost_cur))
  __CPROVER_requires(verif_va_count() == 6
    ? spec_says(ghost_cur, verif_va_int(0), verif_va_ptr(1), verif_va_ptr(5), verif_va_int(2), verif_va_int(3), verif_va_int(4))
    : spec_says(ghost_cur, verif_va_int(0), verif_va_ptr(1), verif_va_ptr(7), verif_va_int(4), verif_va_int(5), verif_va_int(6)) && (!ghost_cur->gl_host || verif_va_ptr(3) == (void *)ghost_cur->gl_host))
  __CPROVER_ensures(ghost_sent == __CPROVER_old(ghost_sent) + (ghost_cur == ghost_g))
  __CPROVER_assigns(ghost_sent);
#endif
#include "ircd/gline.c"
#if defined CUT
#define BESIDE(p, q) ((unsigned long)(p) >= (unsigned long)((q) + 1) || (unsigned long)(q) >= (unsigned long)((p) + 1))
static void canon_userhost(char *userhost, char **user_p, char **host_p, char *def_user)
  __CPROVER_requires(userhost && user_p && host_p && user_p != host_p && (!uf_at(userhost) || *uf_at(userhost) == '@') && BESIDE(uf_at(userhost), user_p) && BESIDE(uf_at(userhost), host_p) && BESIDE(user_p, host_p))
  __CPROVER_ensures(*user_p == (verif_old_int(userhost[0] == '$' || uf_at(userhost)) ? userhost : def_user))
  __CPROVER_ensures(*host_p == (verif_old_int(userhost[0] == '$') ? (char *)0 : uf_at(userhost) ? uf_at(userhost) + 1 : userhost))
  __CPROVER_ensures(verif_old_int(userhost[0] == '$') || !uf_at(userhost) || *uf_at(userhost) == 0)
  __CPROVER_assigns(verif_everything());
void gline_free(struct Gline *gline)
  __CPROVER_requires(gline && gline->gl_prev_p && *gline->gl_prev_p == gline && (!gline->gl_next || gline->gl_next != gline))
  __CPROVER_ensures(*(struct Gline **)verif_old_ptr(gline->gl_prev_p) == verif_old_ptr(gline->gl_next))
  __CPROVER_ensures(!verif_old_ptr(gline->gl_next) || ((struct Gline *)verif_old_ptr(gline->gl_next))->gl_prev_p == verif_old_ptr(gline->gl_prev_p))
  __CPROVER_assigns(verif_everything());
#elif defined FREE
int gline_destroy(struct Client *cptr, struct Client *sptr, struct Gline *gline)
  __CPROVER_requires(gline && (gline->gl_flags & GLINE_LOCAL) && !ghost_freed && sptr->cli_user && sptr->cli_user->server)
  __CPROVER_ensures(ghost_freed == gline)
  __CPROVER_assigns(verif_everything(), ghost_freed);
#else
static void canon_userhost(char *userhost, char **user_p, char **host_p, char *def_user)
  __CPROVER_requires(userhost == ghost_copy && def_user[0] == '*' && !def_user[1])
  __CPROVER_ensures(*user_p == ghost_cu && *host_p == ghost_ch)
  __CPROVER_assigns(*user_p, *host_p, verif_text_upto(userhost, 400));
#define ANYCHAN(f) ((f) & (GLINE_BADCHAN | GLINE_ANY))
struct Gline *gline_find(char *userhost, unsigned int flags)
  __CPROVER_requires(ghost_mask == userhost && ghost_flags == flags && ghost_chan == rec_chan(BadChanGlineList) && ghost_hit == rec_hit(GlobalGlineList))
  __CPROVER_ensures(__CPROVER_return_value == (ANYCHAN(flags) && ghost_chan ? ghost_chan
    : ANYCHAN(flags) == GLINE_BADCHAN || verif_old_int(*userhost == '#' || *userhost == '&') ? (struct Gline *)0 : ghost_hit))
  __CPROVER_assigns(verif_any_field(GlobalGlineList->gl_next), verif_any_field(GlobalGlineList->gl_flags), verif_any_field(GlobalGlineList->gl_state), GlobalGlineList, BadChanGlineList, ghost_copy, ghost_cur);
void gline_burst(struct Client *cptr)
  __CPROVER_requires(ghost_c == cptr && ghost_sent == 0 && ghost_g && !rec_in(GlobalGlineList) == !ghost_in_g && !rec_in(BadChanGlineList) == !ghost_in_b && !(ghost_in_g && ghost_in_b))
  __CPROVER_ensures(ghost_sent == (DUE && (ghost_in_g || ghost_in_b)))
  __CPROVER_assigns(verif_any_field(GlobalGlineList->gl_next), verif_any_field(GlobalGlineList->gl_flags), verif_any_field(GlobalGlineList->gl_state), GlobalGlineList, BadChanGlineList, ghost_sent, ghost_cur);
int gline_resend(struct Client *cptr, struct Gline *gline)
  __CPROVER_requires(ghost_c == cptr && ghost_sent == 0 && ghost_g == gline && gline && ghost_cur == gline)
  __CPROVER_ensures(ghost_sent == (!(gline->gl_flags & GLINE_LOCAL) && gline->gl_lastmod != 0))
  __CPROVER_assigns(ghost_sent);
#endif
