/* In-process network for the replay drivers: the real ircd objects, with a server, local users on
 * simulated connections, linked servers, and everything driven through the real parsers.
 * Needs: wrap deliver_it, update_write, close, server_die, server_restart, exit, execv. */
#ifndef WH_H
#define WH_H
#include "config.h"
#include "channel.h"
#include "class.h"
#include "client.h"
#include "dbuf.h"
#include "gline.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_crypt.h"
#include "ircd_events.h"
#include "ircd_features.h"
#include "ircd_log.h"
#include "ircd_reply.h"
#include "ircd_string.h"
#include "IPcheck.h"
#include "list.h"
#include "match.h"
#include "motd.h"
#include "msg.h"
#include "msgq.h"
#include "numeric.h"
#include "numnicks.h"
#include "parse.h"
#include "res.h"
#include "s_bsd.h"
#include "s_conf.h"
#include "s_debug.h"
#include "s_misc.h"
#include "s_user.h"
#include "send.h"
#include "sline.h"
#include "struct.h"
#include "sys.h"
#include "querycmds.h"
#include "userload.h"
#include "whowas.h"
#include "wl.h"
#include <unistd.h>
#include <signal.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#define WH_MAX 64
static struct { struct Client *cl; char *out; size_t len, cap; int dead; } wh_tab[256];
static int wh_fd = 100;
static int wh_died, wh_restarted;
extern struct Connection me_con;
void compute_secure_path_groups(void);
void init_counters(void);
void sasl_init(void);

unsigned int __wrap_deliver_it(struct Client *cptr, struct MsgQ *buf)
{
  struct iovec iov[512]; unsigned len = 0; int i, n = msgq_mapiov(buf, iov, 512, &len), fd = cli_fd(cptr);
  if (fd < 0 || fd > 255) return len;
  for (i = 0; i < n; i++) {
    if (wh_tab[fd].len + iov[i].iov_len + 1 > wh_tab[fd].cap)
      wh_tab[fd].out = realloc(wh_tab[fd].out, wh_tab[fd].cap = (wh_tab[fd].len + iov[i].iov_len) * 2 + 4096);
    memcpy(wh_tab[fd].out + wh_tab[fd].len, iov[i].iov_base, iov[i].iov_len);
    wh_tab[fd].len += iov[i].iov_len;
  }
  if (wh_tab[fd].out) wh_tab[fd].out[wh_tab[fd].len] = 0;
  return len;
}
void __wrap_update_write(struct Client *c) { }
void __wrap_socket_del(struct Socket *s) { }
int __wrap_close(int fd) { return 0; }
void __wrap_server_die(const char *m) { wh_died++; }
void __wrap_server_restart(const char *m) { wh_restarted++; }
static struct ConfItem wh_conf;
static void wh_init(void)
{
  CurrentTime = 1700000000;
  memset(&me, 0, sizeof me); memset(&me_con, 0, sizeof me_con);
  cli_connect(&me) = &me_con; cli_fd(&me) = -1;
  con_magic(&me_con) = CONNECTION_MAGIC;
  event_init(MAXCONNECTIONS);
  feature_init();
  initload(); init_list(); init_hash(); init_class(); initwhowas(); initmsgtree(); initstats(); sasl_init();
  ircd_crypt_init(); motd_init();
  IPcheck_init(); sline_init();
  strcpy(cli_name(&me), "irc.test.net"); strcpy(cli_info(&me), "test");
  SetYXXServerName(&me, 1);
  SetMe(&me); cli_magic(&me) = CLIENT_MAGIC; cli_from(&me) = &me; make_server(&me);
  cli_serv(&me)->timestamp = 1600000000; cli_serv(&me)->prot = 10; cli_serv(&me)->up = &me; cli_handler(&me) = SERVER_HANDLER;
  SetYXXCapacity(&me, MAXCLIENTS);
  cli_lasttime(&me) = cli_since(&me) = cli_firsttime(&me) = CurrentTime;
  hAddClient(&me); SetIPv6(&me);
  compute_secure_path_groups(); init_counters();
  wh_conf.status = CONF_CLIENT; wh_conf.conn_class = make_class();
  ConClass(wh_conf.conn_class) = strdup("default"); MaxSendq(wh_conf.conn_class) = 100000000; PingFreq(wh_conf.conn_class) = 90; MaxLinks(wh_conf.conn_class) = 1000;
}
static struct Client *wh_local(int status)
{
  struct Client *c = make_client(0, status);
  struct SLink *l;
  cli_fd(c) = wh_fd++; LocalClientArray[cli_fd(c)] = c;
  if (HighestFd < cli_fd(c)) HighestFd = cli_fd(c);
  wh_tab[cli_fd(c)].cl = c;
  l = make_link(); l->value.aconf = &wh_conf; l->next = 0; cli_confs(c) = l; wh_conf.clients++;
  return c;
}
static struct Client *wh_user(const char *nick, const char *user, const char *host, const char *ip)
{
  struct Client *c = wh_local(STAT_UNKNOWN_USER);
  strcpy(cli_name(c), nick); strcpy(cli_info(c), "real name");
  ircd_aton(&cli_ip(c), ip); strcpy(cli_sock_ip(c), ip); strcpy(cli_sockhost(c), host);
  make_user(c);
  cli_user(c)->server = &me;
  strcpy(cli_username(c), user); strcpy(cli_user(c)->username, user); strcpy(cli_user(c)->host, host); strcpy(cli_user(c)->realhost, host);
  if (IPcheck_local_connect(&cli_ip(c), &cli_connect(c)->con_nexttarget)) SetIPChecked(c);
  ++UserStats.unknowns;
  SetUser(c); cli_handler(c) = CLIENT_HANDLER; SetLocalNumNick(c);
  hAddClient(c); add_client_to_list(c);
  --UserStats.unknowns; ++UserStats.local_clients; ++UserStats.clients; ++(cli_serv(&me)->clients);
  cli_lastnick(c) = CurrentTime - 1000; cli_firsttime(c) = CurrentTime - 10000;
  con_nextnick(cli_connect(c)) = 0; con_nexttarget(cli_connect(c)) = 0;
  client_set_privs(c, NULL, 0);
  return c;
}
static void wh_oper(struct Client *c, int global)
{
  if (global) SetOper(c); else SetLocOp(c);
  cli_handler(c) = OPER_HANDLER;
  if (global) ++UserStats.opers;
  client_set_privs(c, &wh_conf, 0);
}
/* a directly linked server; num is its numeric ("AC"), full capacity */
static struct Client *wh_server(const char *name, const char *num)
{
  struct Client *c = wh_local(STAT_UNKNOWN_SERVER); char yxx[8];
  strcpy(cli_name(c), name); strcpy(cli_info(c), "linked");
  make_server(c);
  cli_serv(c)->timestamp = 1600000000; cli_serv(c)->prot = 10; cli_serv(c)->up = &me; cli_hopcount(c) = 1;
  snprintf(yxx, sizeof yxx, "%s]]]", num);
  cli_from(c) = c;
  SetServerYXX(c, c, yxx);
  SetServer(c); SetIPv6(c); cli_handler(c) = SERVER_HANDLER;
  hAddClient(c); add_client_to_list(c);
  cli_serv(c)->updown = add_dlink(&(cli_serv(&me))->down, c);
  UserStats.servers++;
  SetJunction(c);
  compute_secure_path_groups();
  return c;
}
static void wh_flush(void) { int i; for (i = 0; i <= HighestFd; i++) if (LocalClientArray[i]) send_queued(LocalClientArray[i]); }
static int wh_gone(struct Client *c, int fd) { return LocalClientArray[fd] != c; }
static void wh_send(struct Client *c, const char *fmt, ...)
{
  char b[1024]; va_list ap; int n, fd = cli_fd(c);
  va_start(ap, fmt); n = vsnprintf(b, 600, fmt, ap); va_end(ap);
  if (n > 510) n = 510;
  b[n] = 0;
  if (fd < 0 || IsDead(c) || wh_gone(c, fd)) return;
  if (getenv("WH_TRACE")) { printf(">> %s: %s\n", cli_name(c), b); fflush(stdout); }
  if (IsServer(c)) parse_server(c, b, b + n); else parse_client(c, b, b + n);
  wh_flush();
}
/* text sent to a local client since the last call */
static char *wh_out(struct Client *c)
{
  static char *ring[16]; static int k; int fd = cli_fd(c);
  wh_flush();
  k = (k + 1) & 15; free(ring[k]);
  ring[k] = strdup(wh_tab[fd].out && wh_tab[fd].len ? wh_tab[fd].out : "");
  wh_tab[fd].len = 0;
  if (getenv("WH_TRACE") && *ring[k]) { printf("<< %s: %s", cli_name(c), ring[k]); fflush(stdout); }
  return ring[k];
}
static void wh_clear(void) { int i; wh_flush(); for (i = 0; i < 256; i++) wh_tab[i].len = 0; }
/* run scenario f(seed) in child processes until time or count is exhausted */
static int wh_run(int argc, char **argv, void (*f)(unsigned), int count, int seconds)
{
  int i; time_t t0 = time(0); long crashed = 0;
  wl_init(argc, argv);
  if (wl_thorough) { count *= 10; seconds *= 6; }
  for (i = 0; i < count && time(0) - t0 < seconds; i++) {
    unsigned s = wl_rnd(); int st; pid_t p;
    fflush(stdout);
    p = fork();
    if (!p) { wl_state ^= (unsigned long long)s * 0x9E3779B97F4A7C15ULL; wl_rnd(); alarm(20); wh_init(); f(s); fflush(stdout); _exit(0); }
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) return 1;
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (!crashed++) printf("(scenario %d ended with status %x)\n", i, st); }
  }
  printf("no failing input among %d scenarios (%ld ended abnormally)\n", i, crashed);
  return 0;
}
#define WH_WRAPS "deliver_it"
#endif
