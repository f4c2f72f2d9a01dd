/* C27: what it takes for a connection to become a user (s_auth.c) */
#include "c26_env.h"
struct AuthRequest;
int ghost_chk, ghost_chk_bit; unsigned long ghost_chk_flags; const char *ghost_host;
int ghost_rh;                         /* the real host was recorded */
int ghost_kill, ghost_kill_res, ghost_pre, ghost_pre_res, ghost_name, ghost_name_res, ghost_reg, ghost_exited, ghost_destroyed;
struct Client *ghost_c;
struct ConfItem *ghost_cc;            /* the block the connection comes under */
int uf_strcmp(const char *a, const char *b);
int strcmp(const char *a, const char *b)
  __CPROVER_ensures(__CPROVER_return_value == uf_strcmp(a, b))
  __CPROVER_assigns();
struct SLink *uf_confs(struct Client *c);
int uf_trusted(struct Client *c);
char *ircd_strncpy(char *dst, const char *src, size_t len)
  __CPROVER_ensures(ghost_rh == (dst == ghost_c->cli_user->realhost ? src == ghost_c->cli_connect->con_sockhost && len == 63 : __CPROVER_old(ghost_rh)))
  __CPROVER_ensures(ghost_host == (dst == ghost_c->cli_connect->con_sockhost && len == HOSTLEN ? src : __CPROVER_old(ghost_host)))
  __CPROVER_assigns(ghost_rh, ghost_host);
struct AuthRequest;
int ghost_match;
static int spec_eq16(const unsigned short *a, const unsigned short *b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2] && a[3] == b[3] && a[4] == b[4] && a[5] == b[5] && a[6] == b[6] && a[7] == b[7]; }
/* one address; an IPv4 address may be written in two ways */
static int spec_v4(const unsigned short *a) { return a[0] == 0 && a[1] == 0 && a[2] == 0 && a[3] == 0 && a[4] == 0 && ((a[5] == 0 && a[6] != 0) || a[5] == 65535); }
static int spec_same(const unsigned short *a, const unsigned short *b) { return spec_v4(a) ? spec_v4(b) && a[6] == b[6] && a[7] == b[7] : spec_eq16(a, b); }
static int spec_set(const unsigned short *a) { return (a[0] != 0 && a[0] != 65535) || a[1] != a[0] || a[2] != a[0] || a[3] != a[0] || a[4] != a[0] || a[5] != a[0] || a[6] != a[0] || a[7] != a[0]; }
static int rec_among(const struct irc_in_addr *addrs, int i, int n, struct Client *c, const struct irc_in_addr *o)
{
  if (i >= n) return 0;
  if (spec_same(c->cli_ip.in6_16, addrs[i].in6_16) || (irc_in_addr_valid(o) && spec_same(o->in6_16, addrs[i].in6_16))) return 1;
  return rec_among(addrs, i + 1, n, c, o);
}
static int rec_host(const char *h, int i, int max)
{
  if (!h[i]) return 1;
  if (!IsHostChar(h[i]) || i >= max) return 0;
  return rec_host(h, i + 1, max);
}
int ghost_valid;
void verif_inv_auth_verify_hostname(int i, const char *host, int maxlen)
  __CPROVER_ensures(i >= 0 && i <= maxlen && ghost_valid == rec_host(host, i, maxlen));
int memcmp(const void *a, const void *b, size_t n)
  __CPROVER_requires(n == 16)
  __CPROVER_ensures((__CPROVER_return_value == 0) == (spec_eq16(a, b) != 0))
  __CPROVER_assigns();
int ghost_tilde, ghost_clean, ghost_k; char ghost_ch;
/* ~ in front of a name that ident has not confirmed */
#define NAMED(u, c) (ghost_clean || (ghost_tilde ? (u)->username[0] == '~' && (ghost_k == 0 || (u)->username[ghost_k] == ghost_ch) : 1))
void clean_username(char *dest, const char *src)
  __CPROVER_ensures(ghost_clean == (dest == ghost_c->cli_user->username && src == ghost_c->cli_username))
  __CPROVER_assigns(ghost_clean);
int find_kill(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c && ghost_kill == 0 && ghost_rh && NAMED(cptr->cli_user, cptr) && (!SPEC_FLAG(cptr, FLAG_GOTID) || ghost_clean))
  __CPROVER_ensures(ghost_kill == 1 && __CPROVER_return_value == ghost_kill_res)
  __CPROVER_assigns(ghost_kill);
int exit_client(struct Client *cptr, struct Client *bcptr, struct Client *sptr, const char *comment)
  __CPROVER_requires(bcptr == ghost_c)
  __CPROVER_ensures(ghost_exited == 1 && __CPROVER_return_value == -2)
  __CPROVER_assigns(ghost_exited);
#ifdef PRE
enum AuthorizationCheckResult conf_check_client(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c && ghost_pre == 0)
  __CPROVER_ensures(ghost_pre == 1 && __CPROVER_return_value == ghost_pre_res)
  __CPROVER_assigns(ghost_pre);
#endif
struct AuthRequest; const struct irc_in_addr *ghost_orig;
void verif_inv_auth_dns_callback(int i, const struct irc_in_addr *addrs, int addr_count, struct AuthRequest *auth)
  __CPROVER_ensures(i >= 0 && i <= addr_count && !ghost_host && ghost_match == rec_among(addrs, i, addr_count, ghost_c, ghost_orig));
#include "ircd/s_auth.c"
#define QUIET __CPROVER_ensures(1) __CPROVER_assigns()
static int sendto_iauth(struct Client *cptr, const char *format, ...) QUIET;
static void iauth_notify(struct AuthRequest *auth, enum AuthRequestFlag flag) QUIET;
static void sendheader(struct Client *cptr, ReportType r) QUIET;
#define BIT(a, f) (((a)->flags.bits[0] >> (f)) & 1ul)
#define PENDING(a) ((a)->flags.bits[0] & 0x7eul)           /* ident, DNS, CAP, PONG, USER, NICK */
#define USERPORT(c) ((c)->cli_status == 0x010 || (c)->cli_status == STAT_WEBSOCKET)
struct AuthRequest *ghost_a;
#define APART(p, u) ((unsigned long)(p) < (unsigned long)(u) || (unsigned long)(p) >= (unsigned long)((u) + 1))
int ghost_assigned;                   /* the block was assigned by the authorisation service */
#define ENTITLED(c, o) ((!(o)->passwd || !*(o)->passwd || uf_strcmp((c)->cli_connect->con_passwd, (o)->passwd) == 0) && (!(o)->tls_fingerprint || !*(o)->tls_fingerprint || uf_differ((c)->cli_tls_fingerprint, (o)->tls_fingerprint) == 0))
int register_user(struct Client *cptr, struct Client *sptr)
  __CPROVER_requires(cptr == ghost_c && sptr == ghost_c && ghost_reg == 0 && !ghost_exited)
  /* nothing is outstanding, no ban covers him */
  __CPROVER_requires(!PENDING(ghost_a) && !BIT(ghost_a, AR_IAUTH_PENDING) && BIT(ghost_a, AR_GLINE_CHECKED) && (!ghost_kill || ghost_kill_res == 0))
  /* his user name is acceptable, he comes under a Client block and has its password and certificate */
  __CPROVER_requires(ghost_name && ghost_name_res == 0 && (ghost_assigned || (ghost_pre && ghost_pre_res == 0 && ENTITLED(cptr, ghost_cc))))
  __CPROVER_ensures(ghost_reg == 1 && __CPROVER_return_value == 0)
  __CPROVER_assigns(ghost_reg);
void destroy_auth_request(struct AuthRequest *auth)
  __CPROVER_requires(auth == ghost_a && !ghost_exited)
  __CPROVER_ensures(ghost_destroyed == 1)
  __CPROVER_assigns(ghost_destroyed);
static int auth_set_username(struct AuthRequest *auth)
  __CPROVER_requires(auth == ghost_a && !ghost_exited)
  __CPROVER_ensures(ghost_name == 1 && __CPROVER_return_value == ghost_name_res && ghost_exited == (ghost_name_res != 0))
  __CPROVER_assigns(ghost_name, ghost_exited);
#if !defined PRE && !defined START
static int preregister_user(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c && ghost_pre == 0 && !ghost_exited)
  __CPROVER_ensures(ghost_pre == 1 && __CPROVER_return_value == ghost_pre_res && ghost_exited == (ghost_pre_res != 0))
  __CPROVER_ensures(ghost_pre_res || (cptr->cli_connect->con_confs && cptr->cli_connect->con_confs->value.aconf == ghost_cc && ghost_cc))
  __CPROVER_assigns(ghost_pre, ghost_exited, cptr->cli_connect->con_confs);
/* the flags once what has just arrived is struck out */
static unsigned long spec_left(struct AuthRequest *a, int bit)
{
  int b = bit < 0 ? -bit : bit;
  return b == AR_IAUTH_SOFT_DONE ? a->flags.bits[0] : a->flags.bits[0] & ~(1ul << b);
}
static int spec_passed(struct AuthRequest *a, int bit)
{
  unsigned long f = spec_left(a, bit);
  if (f & 0x7eul) return 0;
  if (!((f >> AR_GLINE_CHECKED) & 1) && ghost_kill_res) return 0;
  if ((f >> AR_IAUTH_PENDING) & 1) return 0;
  return ghost_name_res == 0 && (a->client->cli_connect->con_confs || (ghost_pre_res == 0 && ENTITLED(a->client, ghost_cc)));
}
static int check_auth_finished(struct AuthRequest *auth, int bitclr)
  __CPROVER_requires(auth == ghost_a && auth->client == ghost_c && ghost_c->cli_user && ghost_c->cli_connect && bitclr > -14 && bitclr < 14 && bitclr != AR_GLINE_CHECKED && bitclr != -AR_GLINE_CHECKED)
  __CPROVER_requires(!ghost_kill && !ghost_pre && !ghost_name && !ghost_reg && !ghost_exited && !ghost_destroyed && !ghost_clean && !ghost_rh && (ghost_kill_res == 0 || ghost_kill_res == -1 || ghost_kill_res == -2) && (ghost_name_res == 0 || ghost_name_res == -2) && (ghost_pre_res == 0 || ghost_pre_res == -2) && ghost_cc)
  __CPROVER_requires(ghost_assigned == (auth->client->cli_connect->con_confs != 0))
  /* what the configuration holds is not kept inside the user's record */
  __CPROVER_requires(APART(ghost_cc->passwd, ghost_c->cli_user) && APART(ghost_cc->tls_fingerprint, ghost_c->cli_user))
  __CPROVER_requires(ghost_tilde == (!SPEC_FLAG(ghost_c, FLAG_GOTID) && !ghost_c->cli_connect->con_wline && DoIdentLookups) && 0 <= ghost_k && ghost_k <= 9 && (ghost_k == 0 || ghost_ch == ghost_c->cli_user->username[ghost_k - 1]))
  __CPROVER_ensures(ghost_reg == verif_old_int(USERPORT(auth->client) && spec_passed(auth, bitclr)))
  __CPROVER_ensures(verif_old_int(!USERPORT(auth->client)) || ghost_destroyed == ghost_reg)
  __CPROVER_ensures((__CPROVER_return_value != 0) == ghost_exited)
  __CPROVER_ensures(!ghost_exited || !ghost_reg)
  /* bans are looked at once, as soon as name, host and address are settled */
  __CPROVER_ensures(ghost_kill == verif_old_int(USERPORT(auth->client) && !BIT(auth, AR_GLINE_CHECKED) && !(spec_left(auth, bitclr) & ((1ul << AR_AUTH_PENDING) | (1ul << AR_DNS_PENDING) | (1ul << AR_NEEDS_USER)))))
  __CPROVER_ensures(ghost_exited || BIT(auth, AR_GLINE_CHECKED) == (verif_old_int((int)BIT(auth, AR_GLINE_CHECKED)) || ghost_kill))
  __CPROVER_ensures((auth->flags.bits[0] & 0x7eul) == verif_old_ulong(spec_left(auth, bitclr) & 0x7eul))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_kill, ghost_pre, ghost_name, ghost_reg, ghost_exited, ghost_destroyed, ghost_clean, ghost_rh);
#elif defined PRE
struct ConfItem *uf_client_conf(struct Client *c);
static struct ConfItem *find_conf_client(struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value == uf_client_conf(cptr))
  __CPROVER_assigns();
static int preregister_user(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c && !ghost_pre && !ghost_exited && ghost_pre_res >= 0 && ghost_pre_res <= ACR_BAD_SOCKET)
  __CPROVER_ensures((__CPROVER_return_value != 0) == ghost_exited)
  __CPROVER_ensures(ghost_exited == (!uf_client_conf(cptr) && ghost_pre_res != ACR_OK))
  __CPROVER_ensures(uf_client_conf(cptr) || ghost_pre)
  __CPROVER_assigns(ghost_pre, ghost_exited, verif_any_field(ServerStats->is_no_client), verif_any_field(ServerStats->is_class_full), verif_any_field(ServerStats->is_ip_full), verif_any_field(ServerStats->is_bad_socket));
#define CHK_REQ (auth == ghost_a && auth->client == ghost_c && ghost_c->cli_user && ghost_c->cli_connect && ghost_c->cli_connect->con_auth == auth && !ghost_chk)
#define NEEDS 0x60ul                  /* USER and NICK */
#define KEPT(old) (ghost_c->cli_connect->con_auth->client == ghost_c && (ghost_c->cli_connect->con_auth->flags.bits[0] & NEEDS) == ((old) & NEEDS))
int ghost_start;                      /* a new connection: a user has to send USER and NICK */
#define TAKES_USERS(c) (USERPORT(c) || (c)->cli_status == STAT_WEBIRC)
static int check_auth_finished(struct AuthRequest *auth, int bitclr)
  __CPROVER_requires(auth->client == ghost_c && ghost_c->cli_connect->con_auth == auth)
  __CPROVER_requires(!ghost_start || bitclr == 0)
  __CPROVER_requires(!ghost_start || !TAKES_USERS(ghost_c) || (auth->flags.bits[0] & NEEDS) == NEEDS)
  __CPROVER_ensures(ghost_chk == __CPROVER_old(ghost_chk) + 1 && ghost_chk_bit == bitclr && ghost_chk_flags == __CPROVER_old(auth->flags.bits[0]))
  __CPROVER_ensures(ghost_c->cli_connect == verif_old_ptr(ghost_c->cli_connect) && (!ghost_c->cli_connect->con_auth || KEPT(verif_old_ulong(auth->flags.bits[0] & ~(bitclr < 0 ? 1ul << -bitclr : 1ul << bitclr)))))
  __CPROVER_assigns(ghost_chk, ghost_chk_bit, ghost_chk_flags, verif_everything());
#define SETTLED(a) (BIT(a, AR_GLINE_CHECKED) || BIT(a, AR_IAUTH_HURRY))
#define SAME_FLAGS (ghost_chk_flags == verif_old_ulong(auth->flags.bits[0]))
/* a name that has been checked stays */
int auth_set_user(struct AuthRequest *auth, const char *username, const char *hostname, const char *servername, const char *userinfo)
  __CPROVER_requires(CHK_REQ && !ghost_clean && !ghost_start)
  __CPROVER_ensures(ghost_chk == verif_old_int(!SETTLED(auth)))
  __CPROVER_ensures(!ghost_chk || (ghost_chk_bit == AR_NEEDS_USER && SAME_FLAGS))
  __CPROVER_assigns(ghost_chk, ghost_chk_bit, ghost_chk_flags, ghost_clean, verif_everything());
int auth_set_pong(struct AuthRequest *auth, unsigned int cookie)
  __CPROVER_requires(CHK_REQ && !ghost_start)
  __CPROVER_ensures(ghost_chk == verif_old_int(BIT(auth, AR_NEEDS_PONG) && cookie == auth->cookie))
  __CPROVER_ensures(!ghost_chk || (ghost_chk_bit == AR_NEEDS_PONG && SAME_FLAGS))
  __CPROVER_ensures(ghost_chk || (auth->flags.bits[0] == __CPROVER_old(auth->flags.bits[0]) && auth->cookie == __CPROVER_old(auth->cookie)))
  __CPROVER_assigns(ghost_chk, ghost_chk_bit, ghost_chk_flags, verif_everything());
/* the first nick is answered with a PING, and its cookie has to come back */
unsigned int ghost_random;
unsigned int ircrandom(void)
  __CPROVER_ensures(__CPROVER_return_value == ghost_random)
  __CPROVER_assigns();
int ghost_ping; unsigned int ghost_cookie;
void sendrawto_one(struct Client *to, const char *pattern, ...)
  __CPROVER_requires(to == ghost_c)
  __CPROVER_ensures(ghost_ping == 1 && ghost_cookie == verif_va_int(0))
  __CPROVER_assigns(ghost_ping, ghost_cookie);
int auth_set_nick(struct AuthRequest *auth, const char *nickname)
  __CPROVER_requires(CHK_REQ && !ghost_start && !ghost_ping && ghost_random)
  __CPROVER_ensures(ghost_chk == 1 && ghost_chk_bit == AR_NEEDS_NICK)
  __CPROVER_ensures(ghost_ping == verif_old_int(!auth->cookie) && ghost_chk_flags == (verif_old_ulong(auth->flags.bits[0]) | (ghost_ping ? 1ul << AR_NEEDS_PONG : 0)) && (!ghost_ping || ghost_cookie == ghost_random))
  __CPROVER_assigns(ghost_chk, ghost_chk_bit, ghost_chk_flags, ghost_ping, ghost_cookie, verif_everything());
int auth_cap_start(struct AuthRequest *auth)
  __CPROVER_requires(CHK_REQ)
  __CPROVER_ensures(__CPROVER_return_value == 0 && auth->flags.bits[0] == (__CPROVER_old(auth->flags.bits[0]) | 1ul << AR_CAP_PENDING))
  __CPROVER_assigns(auth->flags.bits[0]);
int auth_cap_done(struct AuthRequest *auth)
  __CPROVER_requires(CHK_REQ && !ghost_start)
  __CPROVER_ensures(ghost_chk == 1 && ghost_chk_bit == AR_CAP_PENDING && SAME_FLAGS)
  __CPROVER_assigns(ghost_chk, ghost_chk_bit, ghost_chk_flags, verif_everything());
/* a host name counts only if it leads back to the address */
static int auth_verify_hostname(const char *host, int maxlen)
  __CPROVER_requires(ghost_valid == rec_host(host, 0, maxlen) && maxlen >= 0)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (ghost_valid != 0))
  __CPROVER_assigns();
static void auth_dns_callback(void *vptr, const struct irc_in_addr *addrs, int addr_count, const char *h_name)
  __CPROVER_requires(vptr == (void *)ghost_a && ghost_a->client == ghost_c && ghost_c->cli_connect && ghost_c->cli_connect->con_auth == ghost_a && !ghost_chk && !ghost_start && !ghost_exited && !ghost_host && h_name && addr_count >= 0)
  __CPROVER_requires(ghost_orig == &ghost_a->original && ghost_match == rec_among(addrs, 0, addr_count, ghost_c, ghost_orig) && ghost_valid == rec_host(h_name, 0, HOSTLEN))
  __CPROVER_ensures(ghost_host == (addrs && addr_count && ghost_match && ghost_valid ? h_name : (const char *)0))
  __CPROVER_ensures(ghost_exited == (addrs && addr_count && !ghost_match && uf_feature(FEAT_KILL_IPMISMATCH)))
  __CPROVER_ensures(ghost_chk == !ghost_exited && (!ghost_chk || (ghost_chk_bit == AR_DNS_PENDING && ghost_chk_flags == verif_old_ulong(ghost_a->flags.bits[0] & ~(1ul << AR_DNS_PENDING)))))
  __CPROVER_assigns(ghost_chk, ghost_chk_bit, ghost_chk_flags, ghost_exited, ghost_host, ghost_rh, verif_everything());
/* time runs out for the answers, not for the client */
static void auth_timeout_callback(struct Event *ev)
  __CPROVER_requires(ev->ev_gen.gen_timer && ev->ev_gen.gen_timer->t_header.gh_data == (void *)ghost_a && ghost_a->client == ghost_c && ghost_c->cli_connect && ghost_c->cli_connect->con_auth == ghost_a && !ghost_chk && !ghost_start)
  __CPROVER_ensures(ghost_chk == verif_old_int(ev->ev_type == ET_EXPIRE))
  __CPROVER_ensures(!ghost_chk || ((ghost_chk_bit == 0 || ghost_chk_bit == AR_AUTH_PENDING || ghost_chk_bit == AR_DNS_PENDING) && (ghost_chk_flags & ~(1ul << ghost_chk_bit) & ~1ul) == verif_old_ulong(ghost_a->flags.bits[0] & ~1ul & ~(1ul << AR_AUTH_PENDING) & ~(1ul << AR_DNS_PENDING))))
  __CPROVER_assigns(ghost_chk, ghost_chk_bit, ghost_chk_flags, verif_everything());
#else
/* a new connection */
/* two records do not overlap */
#define BESIDE(p, q) ((unsigned long)(p) >= (unsigned long)((q) + 1) || (unsigned long)(q) >= (unsigned long)((p) + 1))
#define OWNED (auth->client == ghost_c && ghost_c->cli_connect->con_auth == auth)
#define ADDS(bit) ((auth->flags.bits[0] & ~(1ul << (bit))) == verif_old_ulong(auth->flags.bits[0] & ~(1ul << (bit))))
int ghost_asked_dns, ghost_asked_ident, ghost_asked_iauth, ghost_loop;
void gethost_byaddr(const struct irc_in_addr *addr, dns_callback_f callback, void *ctx)
  __CPROVER_requires(addr == &ghost_c->cli_ip && ctx == (void *)ghost_c->cli_connect->con_auth && BIT(ghost_c->cli_connect->con_auth, AR_DNS_PENDING))
  __CPROVER_ensures(ghost_asked_dns == 1)
  __CPROVER_assigns(ghost_asked_dns);
static void start_dns_query(struct AuthRequest *auth)
  __CPROVER_requires(OWNED && !ghost_asked_dns)
  __CPROVER_ensures(ADDS(AR_DNS_PENDING) && (!ghost_asked_dns || BIT(auth, AR_DNS_PENDING)) && (ghost_asked_dns || BIT(auth, AR_DNS_PENDING) == verif_old_ulong(BIT(auth, AR_DNS_PENDING))))
  __CPROVER_ensures(ghost_asked_dns || uf_feature(FEAT_NODNS) || verif_old_int(irc_in_addr_is_loopback(&auth->client->cli_ip)))
  __CPROVER_assigns(auth->flags.bits[0], ghost_asked_dns, verif_text_upto(auth->client->cli_connect->con_sockhost, 64));
static void send_auth_query(struct AuthRequest *auth)
  __CPROVER_requires(OWNED && BIT(auth, AR_AUTH_PENDING))
  __CPROVER_ensures(ADDS(AR_AUTH_PENDING))
  __CPROVER_assigns(auth->flags.bits[0]);
static void start_auth_query(struct AuthRequest *auth)
  __CPROVER_requires(OWNED)
  __CPROVER_ensures(ADDS(AR_AUTH_PENDING))
  __CPROVER_assigns(auth->flags.bits[0], verif_any_field(ServerStats->is_abad));
static void start_iauth_query(struct AuthRequest *auth)
  __CPROVER_requires(OWNED)
  __CPROVER_ensures(ADDS(AR_IAUTH_PENDING))
  __CPROVER_assigns(auth->flags.bits[0]);
#define NEEDS 0x60ul
#define TAKES_USERS(c) (USERPORT(c) || (c)->cli_status == STAT_WEBIRC)
static int check_auth_finished(struct AuthRequest *auth, int bitclr)
  __CPROVER_requires(OWNED && bitclr == 0)
  __CPROVER_requires(!TAKES_USERS(ghost_c) || (auth->flags.bits[0] & NEEDS) == NEEDS)
  __CPROVER_ensures(ghost_chk == __CPROVER_old(ghost_chk) + 1)
  __CPROVER_ensures(ghost_c->cli_connect == verif_old_ptr(ghost_c->cli_connect) && (!ghost_c->cli_connect->con_auth || (ghost_c->cli_connect->con_auth == verif_old_ptr(ghost_c->cli_connect->con_auth) && OWNED && ghost_c->cli_status == verif_old_int(ghost_c->cli_status) && (auth->flags.bits[0] & NEEDS) == (verif_old_ulong(auth->flags.bits[0]) & NEEDS))))
  __CPROVER_assigns(ghost_chk, verif_everything());
void start_dns_ident(struct Client *client)
  __CPROVER_requires(client == ghost_c && client->cli_connect && client->cli_connect->con_auth && client->cli_connect->con_auth->client == client && !ghost_asked_dns)
  __CPROVER_requires(!TAKES_USERS(client) || (client->cli_connect->con_auth->flags.bits[0] & NEEDS) == NEEDS)
  __CPROVER_ensures(ghost_chk == __CPROVER_old(ghost_chk) + 1)
  __CPROVER_ensures(ghost_c->cli_connect == verif_old_ptr(ghost_c->cli_connect) && (!ghost_c->cli_connect->con_auth || (ghost_c->cli_connect->con_auth == verif_old_ptr(ghost_c->cli_connect->con_auth) && ghost_c->cli_connect->con_auth->client == ghost_c && ghost_c->cli_status == verif_old_int(ghost_c->cli_status) && (ghost_c->cli_connect->con_auth->flags.bits[0] & NEEDS) == (verif_old_ulong(ghost_c->cli_connect->con_auth->flags.bits[0]) & NEEDS))))
  __CPROVER_assigns(ghost_chk, ghost_asked_dns, verif_everything());
struct User *make_user(struct Client *cptr)
  __CPROVER_ensures(__CPROVER_return_value != 0)
  __CPROVER_assigns();
int ghost_listed;
void add_client_to_list(struct Client *cptr)
  __CPROVER_requires(cptr == ghost_c)
  __CPROVER_ensures(ghost_listed == 1)
  __CPROVER_assigns(ghost_listed);
void start_auth(struct Client *client)
  __CPROVER_requires(client == ghost_c && client->cli_connect && !ghost_chk && !ghost_asked_dns && !ghost_listed && !ghost_exited)
  __CPROVER_requires(!auth_freelist || (BESIDE(auth_freelist, client) && BESIDE(auth_freelist, client->cli_connect)))
  __CPROVER_ensures(verif_old_int(client->cli_connect->con_auth != 0) || ghost_exited || (ghost_chk && ghost_listed))
  __CPROVER_ensures(!verif_old_int(client->cli_connect->con_auth != 0) || !(ghost_chk || ghost_listed || ghost_exited))
  __CPROVER_assigns(ghost_chk, ghost_listed, ghost_exited, ghost_asked_dns, verif_everything());
#endif
