/* C03 replay: servers and users come and go through the real parser; every numeric names the one it was given to */
#include "wh.h"
#include "numnicks.h"
static unsigned val(char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '[' ? 62 : c == ']' ? 63 : 999; }
static const char D[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]";
static void enc(char *b, unsigned v, int n) { int i; for (i = n - 1; i >= 0; i--) { b[i] = D[v & 63]; v >>= 6; } b[n] = 0; }
static struct { char yy[3]; unsigned cap; struct Client *link; struct Client *srv; int up, alive; } S[8];
static struct { char nick[12], num[8]; int s; struct Client *local; int alive; } U[200];
static int nS, nU;
static void link_conf(struct Client *c)
{
  struct ConfItem *a = calloc(1, sizeof *a); struct SLink *l = make_link();
  a->status = CONF_SERVER; a->name = strdup(cli_name(c)); a->host = strdup("*"); a->maximum = 9; a->conn_class = wh_conf.conn_class; a->clients = 1;
  l->value.aconf = a; l->next = cli_confs(c); cli_confs(c) = l;
}
static void check(const char *after)
{
  int i, j; char b[8];
  for (i = 0; i < nS; i++) {
    struct Client *f = FindNServer(S[i].yy);
    if (S[i].alive ? !f || f != S[i].srv : f != 0) wl_witness("after %s: numeric %s names %s, should name %s", after, S[i].yy, f ? cli_name(f) : "nobody", S[i].alive ? cli_name(S[i].srv) : "nobody");
  }
  for (i = 0; i < nU; i++) {
    struct Client *f, *n;
    if (!U[i].alive) continue;
    n = FindUser(U[i].nick);
    if (!n) continue;               /* went away for another reason: nothing to say */
    if (U[i].s < 0) { snprintf(b, sizeof b, "AB%s", cli_yxx(n)); if (strlen(cli_yxx(n)) != 3) wl_witness("after %s: local user %s has the numeric %s", after, U[i].nick, wl_quote(cli_yxx(n))); }
    else strcpy(b, U[i].num);
    f = findNUser(b);
    if (f != n) wl_witness("after %s: numeric %s names %s, should name %s", after, b, f ? cli_name(f) : "nobody", U[i].nick);
    for (j = 0; j < i; j++) if (U[j].alive && U[j].s < 0 && U[i].s < 0 && FindUser(U[j].nick) && !strcmp(cli_yxx(FindUser(U[j].nick)), cli_yxx(n))) wl_witness("after %s: %s and %s have the same numeric", after, U[i].nick, U[j].nick);
  }
}
static void sc(unsigned seed)
{
  int i, k, steps = 30 + wl_below(60); char b[16], c[4], what[200];
  for (i = 0; i < 40; i++) {
    unsigned v = wl_chance(3) ? wl_below(64) : wl_rnd(), n = 1 + wl_below(6), m = n == 6 ? v : v & ((1ull << (6 * n)) - 1), r = 0, q;
    memset(b, '~', sizeof b); inttobase64(b, v, n);
    if (strlen(b) != n) wl_witness("inttobase64(%u, %u digits) writes %s", v, n, wl_quote(b));
    for (q = 0; q < n; q++) { if (val(b[q]) > 63) wl_witness("inttobase64(%u, %u digits) writes %s", v, n, wl_quote(b)); r = r * 64 + val(b[q]); }
    if (r != m || base64toint(b) != m) wl_witness("inttobase64(%u, %u digits) writes %s, base64toint reads %u", v, n, b, base64toint(b));
  }
  { /* an empty numeric in front of what is left from an earlier line */
    static char e[16] = "\0B";
    struct Client *f = findNUser(e), *g = FindNServer(e);
    if (f || g) wl_witness("the empty numeric names %s", f ? cli_name(f) : cli_name(g));
  }
  for (k = 0; k < steps; k++) {
    int w = wl_below(10);
    if (nS < 6 && (w == 0 || !nS)) {
      char name[30]; int d, up = -1;
      for (i = 0; i < nS; i++) if (S[i].alive && wl_chance(2)) up = i;
      d = up < 0;
      enc(S[nS].yy, 2 + (wl_chance(2) ? (unsigned)nS : (unsigned)(64 * (nS + 1) + wl_below(64))), 2);
      for (i = 0; i < nS; i++) if (!strcmp(S[i].yy, S[nS].yy)) break;
      if (i < nS) continue;
      snprintf(name, sizeof name, "s%d.test.net", nS);
      if (d) { S[nS].srv = S[nS].link = wh_server(name, S[nS].yy); S[nS].cap = 262143; link_conf(S[nS].srv); }
      else {
        S[nS].cap = (16u << wl_below(6)) - 1; enc(c, S[nS].cap, 3);
        wh_send(S[up].link, "%s S %s 2 0 1600000000 J10 %s%s +6 :x", S[up].yy, name, S[nS].yy, c);
        S[nS].link = S[up].link; S[nS].srv = FindServer(name); if (!S[nS].srv) return;
      }
      S[nS].up = up; S[nS].alive = 1; nS++;
      snprintf(what, sizeof what, "server %s joined as %s", name, S[nS - 1].yy);
    } else if (w < 5 && nU < 200) {
      int s = wl_below(nS); unsigned n;
      if (!S[s].alive) continue;
      snprintf(U[nU].nick, sizeof U[nU].nick, "r%d", nU);
      n = wl_chance(2) ? wl_below(20) : wl_rnd() & 262143;
      if (wl_chance(3)) n |= ~S[s].cap & 262143 & wl_rnd();
      enc(c, n, 3); snprintf(U[nU].num, sizeof U[nU].num, "%s%s", S[s].yy, c);
      /* the same place on that server: the older user is a ghost */
      wh_send(S[s].link, "%s N %s 1 1600000000 rem%d r.host.org AKAQID %s :Remote", S[s].yy, U[nU].nick, nU, U[nU].num);
      for (i = 0; i < nU; i++) if (U[i].alive && U[i].s == s && ((val(U[i].num[2]) * 4096 + val(U[i].num[3]) * 64 + val(U[i].num[4])) & S[s].cap) == (n & S[s].cap)) { U[i].alive = 0; if (FindUser(U[i].nick)) wl_witness("user %s kept its place %s although %s was announced there", U[i].nick, U[i].num, U[nU].nick); }
      U[nU].s = s; U[nU].alive = FindUser(U[nU].nick) != 0; nU++;
      snprintf(what, sizeof what, "user %s announced as %s", U[nU - 1].nick, U[nU - 1].num);
    } else if (w < 7 && nU < 200) {
      snprintf(U[nU].nick, sizeof U[nU].nick, "l%d", nU);
      U[nU].local = wh_user(U[nU].nick, "loc", "l.host.org", "10.1.2.3"); U[nU].s = -1; U[nU].alive = 1; nU++;
      snprintf(what, sizeof what, "local user %s", U[nU - 1].nick);
    } else if (w < 9 && nU) {
      i = wl_below(nU); if (!U[i].alive || !FindUser(U[i].nick)) continue;
      if (U[i].s < 0) wh_send(U[i].local, "QUIT :bye"); else wh_send(S[U[i].s].link, "%s Q :bye", U[i].num);
      U[i].alive = 0;
      if (U[i].s >= 0 && findNUser(U[i].num)) wl_witness("user %s left, but its numeric %s still names %s", U[i].nick, U[i].num, cli_name(findNUser(U[i].num)));
      snprintf(what, sizeof what, "user %s left", U[i].nick);
    } else if (wl_chance(3)) {
      int j, ch; i = wl_below(nS); if (!S[i].alive || S[i].up < 0) continue;
      wh_send(S[i].link, "%s SQ %s 0 :gone", S[S[i].up].yy, cli_name(S[i].srv));
      S[i].alive = 0;
      do for (ch = 0, j = 0; j < nS; j++) if (S[j].alive && S[j].up >= 0 && !S[S[j].up].alive) S[j].alive = 0, ch = 1; while (ch);
      for (j = 0; j < nU; j++) if (U[j].s >= 0 && !S[U[j].s].alive) U[j].alive = 0;
      snprintf(what, sizeof what, "server %s left", S[i].yy);
    } else continue;
    check(what);
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 3000, 60); }
