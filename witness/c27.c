/* Replay for C27: random registrations - what has to arrive, in random order, with bans, Client blocks
 * and passwords - against the real s_auth.c, m_user, m_nick, m_cap, m_pong. */
#define _GNU_SOURCE
#include "ircd/s_auth.c"
#include "wh.h"
extern struct DenyConf *denyConfList;
static struct ConfItem blk[2];
static struct Client *S;
#include <sys/socket.h>
#include <netinet/in.h>
static void reg_event(struct Event *e) { }
/* a connection through the loopback interface, as the listener would hand it over */
static struct Client *reg_connect(const char *host, int st)
{
  struct sockaddr_in a; socklen_t n = sizeof a; int l = socket(AF_INET, SOCK_STREAM, 0), s = socket(AF_INET, SOCK_STREAM, 0), fd; struct Client *c;
  memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (l < 0 || s < 0 || bind(l, (void *)&a, n) || listen(l, 1) || getsockname(l, (void *)&a, &n) || connect(s, (void *)&a, n) || (fd = accept(l, 0, 0)) < 0) return 0;
  close(l); c = make_client(0, st);
  socket_add(&cli_socket(c), reg_event, cli_connect(c), SS_CONNECTED, SOCK_EVENT_READABLE, fd); cli_fd(c) = fd; wh_tab[fd].cl = c;
  ircd_aton(&cli_ip(c), "127.0.0.1"); strcpy(cli_sock_ip(c), "127.0.0.1"); strcpy(cli_sockhost(c), host);
  cli_handler(c) = UNREGISTERED_HANDLER; ++UserStats.unknowns;
  if (IPcheck_local_connect(&cli_ip(c), &cli_connect(c)->con_nexttarget)) SetIPChecked(c);
  start_auth(c);
  return c;
}
/* new connections: each has its own registration, and a user needs USER and NICK */
static void fresh(void)
{
  struct Client *c[4]; int i, j, st[4], dns = wl_chance(2), id = wl_chance(2);
  feature_set(&me, (const char *[]){ "NODNS", dns ? "TRUE" : "FALSE", 0 }, 2); feature_set(&me, (const char *[]){ "NOIDENT", id ? "TRUE" : "FALSE", 0 }, 2);
  for (i = 0; i < 4; i++) {
    st[i] = wl_chance(2) ? STAT_UNKNOWN_SERVER : STAT_UNKNOWN_USER;
    if (!(c[i] = reg_connect(st[i] == STAT_UNKNOWN_SERVER ? "server.host" : "some.host", st[i]))) return;
    if (st[i] == STAT_UNKNOWN_SERVER) continue;
    if (!cli_auth(c[i]) || cli_auth(c[i])->client != c[i] || (cli_auth(c[i])->flags.bits[0] & (1ul << AR_NEEDS_USER | 1ul << AR_NEEDS_NICK)) != (1ul << AR_NEEDS_USER | 1ul << AR_NEEDS_NICK))
      wl_witness("connection %d: a new connection of a user is not asked for USER and NICK (NODNS %d, NOIDENT %d)", i, dns, id);
    for (j = 0; j < i; j++) if (cli_auth(c[j]) && cli_auth(c[j]) == cli_auth(c[i])) wl_witness("connections %d (%s) and %d (%s) share one registration (NODNS %d, NOIDENT %d)", j, st[j] == STAT_UNKNOWN_SERVER ? "server port" : "user", i, st[i] == STAT_UNKNOWN_SERVER ? "server port" : "user", dns, id);
  }
}
static void sc(unsigned seed)
{
  static const char *users[] = { "joe", "bob", "evil", "a.b" };
  static const char *hosts[] = { "ok.host", "bad.host", "127.0.0.9" };
  static const char *reals[] = { "me", "spam here" };
  static const char *passes[] = { "", "secret", "wrong" };
  static struct DenyConf deny[2];
  struct Client *c; struct AuthRequest *a; int round, i, fd;
  if (wl_chance(10)) { blk[0] = wh_conf; blk[0].next = 0; blk[0].addrbits = -1; blk[0].maximum = 1000; blk[0].clients = 0; GlobalConfList = blk; fresh(); return; }
  feature_set(&me, (const char *[]){ "NODNS", "FALSE", 0 }, 2);
  S = wh_server("far.net", "AC"); wh_send(S, "AC EB");
  for (i = 0; i < 2; i++) { blk[i] = wh_conf; blk[i].next = i ? 0 : &blk[1]; blk[i].host = i ? 0 : strdup("ok.*"); blk[i].username = 0; blk[i].addrbits = -1; blk[i].maximum = 1000; blk[i].clients = 0; }
  blk[0].passwd = strdup("secret"); blk[1].passwd = 0;
  for (i = 0; i < 2; i++) if (wl_chance(3)) blk[i].tls_fingerprint = strdup("aa11");
  GlobalConfList = &blk[0];
  memset(deny, 0, sizeof deny);
  deny[0].usermask = wl_chance(2) ? strdup("~evil") : strdup("evil"); deny[0].next = &deny[1];
  deny[1].realmask = strdup("*spam*"); if (wl_chance(2)) deny[1].hostmask = strdup("bad*");
  denyConfList = wl_chance(3) ? 0 : &deny[0];
  i = wl_below(5);
  if (i == 1) wh_send(S, "AC GL * +*@bad.host 3600 %lu :x", (long)CurrentTime);
  if (i == 2) wh_send(S, "AC GL * +~bob@* 3600 %lu :x", (long)CurrentTime);
  if (i == 3) wh_send(S, "AC GL * +*@10.9.9.* 3600 %lu :x", (long)CurrentTime);
  if (i == 4) wh_send(S, "AC GL * +$R*spam* 3600 %lu :x", (long)CurrentTime);
  for (round = 0; round < 6; round++) {
    unsigned long need; const char *u = 0, *r = 0, *host, *pass = ""; char uu[40] = "", said[900], ident[20] = "", fp[20] = ""; int gl = i, checked = 0, banned = 0, pinged = 0, step, ip9, gone = 0, k, bad; char *q = said;
    host = hosts[wl_below(3)]; ip9 = wl_chance(3);
    c = make_client(0, STAT_UNKNOWN_USER);
    fd = cli_fd(c) = wh_fd++; LocalClientArray[fd] = c; if (HighestFd < fd) HighestFd = fd; wh_tab[fd].cl = c;
    ircd_aton(&cli_ip(c), ip9 ? "10.9.9.9" : "10.1.1.1"); strcpy(cli_sock_ip(c), ip9 ? "10.9.9.9" : "10.1.1.1"); strcpy(cli_sockhost(c), host);
    make_user(c); cli_user(c)->server = &me; cli_handler(c) = UNREGISTERED_HANDLER;
    if (IPcheck_local_connect(&cli_ip(c), &cli_connect(c)->con_nexttarget)) SetIPChecked(c); ++UserStats.unknowns;
    add_client_to_list(c);
    a = calloc(1, sizeof *a); a->client = c; cli_auth(c) = a; s_fd(&a->socket) = -1;
    timer_add(timer_init(&a->timeout), auth_timeout_callback, a, TT_RELATIVE, 60);
    if (wl_chance(3)) { strcpy(ident, wl_chance(2) ? "evil" : "joe"); }
    if (wl_chance(3)) { strcpy(fp, wl_chance(2) ? "aa11" : "bb22"); strcpy(cli_tls_fingerprint(c), fp); SetTLS(c); }
    need = 1ul << AR_NEEDS_USER | 1ul << AR_NEEDS_NICK;
    if (wl_chance(2)) need |= 1ul << AR_DNS_PENDING;
    if (wl_chance(2) || *ident) need |= 1ul << AR_AUTH_PENDING;
    if (wl_chance(4)) need |= 1ul << AR_IAUTH_PENDING;
    a->flags.bits[0] = need & ~(1ul << AR_DNS_PENDING);
    q += snprintf(q, 200, "%s from %s [%s] ident \"%s\":", need >> AR_IAUTH_PENDING & 1 ? "authorised elsewhere" : "user", host, cli_sock_ip(c), ident);
    /* the resolver is not asked: its part is played by check_auth_finished itself */
    if (need >> AR_DNS_PENDING & 1) FlagSet(&a->flags, AR_DNS_PENDING);
    for (step = 0; step < 25 && !gone; step++) {
      int e = wl_below(12), was = need;
      switch (e) {
      case 0: { const char *nu = users[wl_below(4)], *nr = reals[wl_below(2)]; int keep = !checked;
        q += snprintf(q, 60, " USER %s :%s", nu, nr);
        need &= ~(1ul << AR_NEEDS_USER); if (keep) u = nu, r = nr;
        wh_send(c, "USER %s 0 * :%s", nu, nr); break; }
      case 1: case 2: q += snprintf(q, 60, " NICK"); if (!pinged) { pinged = 1; need |= 1ul << AR_NEEDS_PONG; } need &= ~(1ul << AR_NEEDS_NICK); wh_send(c, "NICK n%d_%d", round, step); break;
      case 3: if (!(need >> AR_CAP_PENDING & 1)) { q += snprintf(q, 60, " CAP"); need |= 1ul << AR_CAP_PENDING; wh_send(c, "CAP LS"); } break;
      case 4: case 5: q += snprintf(q, 60, " CAP END"); need &= ~(1ul << AR_CAP_PENDING); wh_send(c, "CAP END"); break;
      case 6: case 11: if (need >> AR_NEEDS_PONG & 1) { int ok = !wl_chance(4); q += snprintf(q, 60, " PONG(%d)", ok); if (ok) need &= ~(1ul << AR_NEEDS_PONG); wh_send(c, "PONG %u", ok ? a->cookie : a->cookie ^ (1u << wl_below(32))); } break;
      case 7: if (need >> AR_DNS_PENDING & 1) { q += snprintf(q, 60, " dns"); need &= ~(1ul << AR_DNS_PENDING); check_auth_finished(a, AR_DNS_PENDING); } break;
      case 8: if (need >> AR_AUTH_PENDING & 1) { q += snprintf(q, 60, " ident"); need &= ~(1ul << AR_AUTH_PENDING); if (*ident) { strcpy(cli_username(c), ident); SetGotId(c); } check_auth_finished(a, AR_AUTH_PENDING); } break;
      case 9: if (need >> AR_IAUTH_PENDING & 1 && a->flags.bits[0] >> AR_IAUTH_HURRY & 1) { q += snprintf(q, 60, " iauth"); need &= ~(1ul << AR_IAUTH_PENDING); check_auth_finished(a, AR_IAUTH_PENDING); } break;
      default: if (!*pass) { pass = passes[1 + wl_below(2)]; q += snprintf(q, 60, " PASS %s", pass); wh_send(c, "PASS :%s", pass); } break;
      }
      (void)was;
      gone = LocalClientArray[fd] != c;
      if (!checked && !(need & (1ul << AR_AUTH_PENDING | 1ul << AR_DNS_PENDING | 1ul << AR_NEEDS_USER))) {
        checked = 1;
        snprintf(uu, sizeof uu, "%s%s", *ident || !DoIdentLookups ? "" : "~", *ident ? ident : u);
        if (denyConfList && !match(deny[0].usermask, uu)) banned = 1;
        if (denyConfList && strstr(r, "spam") && (!deny[1].hostmask || !strncmp(host, "bad", 3))) banned = 1;
        if (gl == 1 && !strcmp(host, "bad.host")) banned = 1;
        if (gl == 2 && !strcmp(uu, "~bob")) banned = 1;
        if (gl == 3 && ip9) banned = 1;
        if (gl == 4 && strstr(r, "spam")) banned = 1;
        if (banned && !gone) wl_witness("%s: is kept though %s@%s (%s) is banned", said, uu, host, r);
        if (gone && !banned && need) wl_witness("%s: %s@%s (%s) is thrown out though no ban covers him", said, uu, host, r);
        if (!gone && strcmp(cli_user(c)->username, uu)) wl_witness("%s: is %s to the ban check, and %s now", said, uu, cli_user(c)->username);
      }
      if (gone) break;
      if (checked && (strcmp(cli_user(c)->username, uu) || strcmp(cli_info(c), r))) wl_witness("%s: bans were checked for %s (%s), but he is %s (%s)", said, uu, r, cli_user(c)->username, cli_info(c));
      if (IsUser(c) && need) wl_witness("%s: is a user while 0x%lx is outstanding", said, need);
      if (!need) {
        struct ConfItem *b = !strcmp(host, "ok.host") ? &blk[0] : &blk[1];
        bad = (b->passwd && strcmp(b->passwd, pass)) || (b->tls_fingerprint && strcmp(b->tls_fingerprint, fp));
        if (bad) wl_witness("%s: %s, though his Client block asks for the password \"%s\" and the certificate \"%s\"", said, IsUser(c) ? "is a user" : "is kept", b->passwd ? b->passwd : "", b->tls_fingerprint ? b->tls_fingerprint : "");
        if (!IsUser(c)) wl_witness("%s: nothing is outstanding, but he is not a user", said);
        if (cli_auth(c)) wl_witness("%s: a user with a registration in progress", said);
        break;
      }
    }
    (void)k;
    if (!gone && cli_auth(c) && LocalClientArray[fd] == c) exit_client(c, c, &me, "done");
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 400, 14); }
