/* C08: private messages (ircd_relay.c) */
#include "c08_env.h"
int is_silenced(struct Client *sptr, struct Client *acptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == spec_silenced(sptr, acptr))
  __CPROVER_assigns();
int should_block_unauth_user(struct Client *source, struct Client *dest)
  __CPROVER_ensures((__CPROVER_return_value != 0) == spec_unauth_blocked(source, dest))
  __CPROVER_assigns();
static int has_common_channel(struct Client *sptr, struct Client *acptr)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (rec_common(sptr->cli_user->channel, acptr->cli_user->channel) != 0))
  __CPROVER_assigns();
void verif_inv_common_outer(struct Membership *schan, struct Client *sptr, struct Client *acptr)
  __CPROVER_ensures((rec_common(schan, acptr->cli_user->channel) != 0) == (rec_common(sptr->cli_user->channel, acptr->cli_user->channel) != 0));
void verif_inv_common_inner(struct Membership *achan, struct Membership *schan, struct Client *sptr, struct Client *acptr)
  __CPROVER_ensures((rec_on(achan, schan->channel) != 0) == (rec_on(acptr->cli_user->channel, schan->channel) != 0));

static int spec_echo(struct Client *s) { return (s->cli_connect->con_active & CAP_ECHOMESSAGE) != 0; }
/* a message from a local user to a nickname */
static int spec_private(struct Client *s, const char *name, const char *text, char k)
{
  struct Client *d = SEEK(name, 0x080);
  return d && (spec_service(d) || !uf_limited(s, d)) && !spec_user_refuses(s, d) && !uf_sline(s, d, text, k) && !spec_no_common(s, d);
}
static int spec_private_tag(struct Client *s, const char *name, const char *text)
{
  struct Client *d = SEEK(name, 0x080);
  return d && (spec_service(d) || !uf_limited(s, d)) && !spec_user_refuses(s, d) && !spec_no_common(s, d);
}
static struct Client *spec_dest(const char *name) { return SEEK(name, 0x080); }
/* ... that arrived from another server */
static int spec_private_remote(struct Client *s, const char *yxx)
{
  struct Client *d = uf_numuser(yxx);
  return d && spec_is_user(d) && !spec_user_refuses(s, d) && !spec_no_common(s, d);
}
/* nick@server: only to services servers, and on this one only to a local network service */
static struct Client *spec_dserver(const char *server) { return SEEK(server + 1, 0x044); }
static int spec_host_ok(const char *name, const char *server, struct Client *d)
{
  const char *h = uf_strchr(name, '%');
  return !h || h + 1 == server || !h[1] || !uf_match(h + 1, d->cli_user->host);
}
static int spec_directed_dest_ok(struct Client *s, const char *name, const char *server)
{
  struct Client *d = name != server && name != uf_strchr(name, '%') && *name ? uf_client(name, 0x080) : (struct Client *)0;
  return d && spec_my_user(d) && spec_service(d) && spec_host_ok(name, server, d) && !spec_user_refuses(s, d);
}
static int spec_directed(struct Client *s, const char *name, const char *server, const char *text, char k)
{
  struct Client *v = spec_dserver(server);
  if (!v || !SPEC_FLAG(v, FLAG_SERVICE)) return 0;
  if (!spec_is_me(v)) return 1;
  return spec_directed_dest_ok(s, name, server) && !uf_sline(s, uf_client(name, 0x080), text, k);
}
static int spec_directed_tag(struct Client *s, const char *name, const char *server)
{
  struct Client *v = spec_dserver(server);
  if (!v || !SPEC_FLAG(v, FLAG_SERVICE)) return 0;
  return !spec_is_me(v) || spec_directed_dest_ok(s, name, server);
}
static struct Client *spec_directed_to(const char *name, const char *server)
{
  return spec_is_me(spec_dserver(server)) ? uf_client(name, 0x080) : spec_dserver(server);
}
#define COUNT(can) __CPROVER_ensures(ghost_n == (verif_old_int(can) ? 1 + verif_old_int(spec_echo(sptr)) : 0))
#define FIRST(dst, t0, t1, a0) __CPROVER_ensures(ghost_n == 0 || (ghost_from[0] == sptr && ghost_to[0] == (dst) && ghost_tok0[0] == (t0) && ghost_tok1[0] == (t1) && ghost_va0[0] == (a0)))
#define TEXT __CPROVER_ensures(ghost_n == 0 || ghost_va1[0] == text)
#define ECHO __CPROVER_ensures(ghost_n < 2 || ghost_to[1] == verif_old_ptr(sptr->cli_connect->con_client))
#define LOCALSRC __CPROVER_requires(ghost_n == 0 && spec_my_user(sptr))
#define GHOSTS ghost_n, ghost_from, ghost_to, ghost_tok0, ghost_tok1, ghost_va0, ghost_va1
#define DEST ((struct Client *)verif_old_ptr(spec_dest(name)))

void relay_private_message(struct Client *sptr, const char *name, const char *text)
  LOCALSRC COUNT(spec_private(sptr, name, text, 'P')) FIRST(DEST, 'P', 0, DEST) TEXT ECHO
  __CPROVER_assigns(GHOSTS);
void relay_private_notice(struct Client *sptr, const char *name, const char *text)
  LOCALSRC COUNT(spec_private(sptr, name, text, 'N')) FIRST(DEST, 'O', 0, DEST) TEXT ECHO
  __CPROVER_assigns(GHOSTS);
void relay_private_tagmsg(struct Client *sptr, const char *name)
  LOCALSRC
  __CPROVER_ensures(ghost_n == 0 || (verif_old_int(spec_private_tag(sptr, name, 0)) && ghost_n == 1 + verif_old_int(spec_echo(sptr))))
  FIRST(DEST, 'T', 'M', DEST) ECHO
  __CPROVER_assigns(GHOSTS);
#define RDEST ((struct Client *)verif_old_ptr(uf_numuser(name)))
#define RCOUNT __CPROVER_ensures(ghost_n == (verif_old_int(spec_private_remote(sptr, name)) ? 1 : 0))
void server_relay_private_message(struct Client *sptr, const char *name, const char *text)
  __CPROVER_requires(ghost_n == 0) RCOUNT FIRST(RDEST, 'P', 0, RDEST) TEXT
  __CPROVER_assigns(GHOSTS);
void server_relay_private_notice(struct Client *sptr, const char *name, const char *text)
  __CPROVER_requires(ghost_n == 0) RCOUNT FIRST(RDEST, 'O', 0, RDEST) TEXT
  __CPROVER_assigns(GHOSTS);
void server_relay_private_tagmsg(struct Client *sptr, const char *name)
  __CPROVER_requires(ghost_n == 0) RCOUNT FIRST(RDEST, 'T', 'M', RDEST)
  __CPROVER_assigns(GHOSTS);
#define DIRSRC __CPROVER_requires(ghost_n == 0 && server[0] == '@' && uf_strchr(name, '%') != server)
#define DIRDEST ((struct Client *)verif_old_ptr(spec_directed_to(name, server)))
/* what is delivered names the target as it was written */
#define WHOLE __CPROVER_ensures(ghost_n == 0 || (server[0] == '@' && (!uf_strchr(name, '%') || *uf_strchr(name, '%') == verif_old_int(*uf_strchr(name, '%')))))
#define DIRMEM __CPROVER_assigns(GHOSTS) __CPROVER_assigns(*server) __CPROVER_assigns(uf_strchr(name, '%') != 0: *uf_strchr(name, '%'))
void relay_directed_message(struct Client *sptr, char *name, char *server, const char *text)
  DIRSRC COUNT(spec_directed(sptr, name, server, text, 'P')) FIRST(DIRDEST, 'P', 0, name) TEXT WHOLE
  __CPROVER_assigns(verif_everything());
void relay_directed_notice(struct Client *sptr, char *name, char *server, const char *text)
  DIRSRC COUNT(spec_directed(sptr, name, server, text, 'N')) FIRST(DIRDEST, 'O', 0, name) TEXT WHOLE
  __CPROVER_assigns(verif_everything());
void relay_directed_tagmsg(struct Client *sptr, char *name, char *server)
  DIRSRC
  __CPROVER_ensures(ghost_n == 0 || (verif_old_int(spec_directed_tag(sptr, name, server)) && ghost_n == 1 + verif_old_int(spec_echo(sptr))))
  FIRST(DIRDEST, 'T', 'M', name) WHOLE
  __CPROVER_assigns(verif_everything());
#include "ircd/ircd_relay.c"
