/* Replay for C26: random G-lines and K-lines coming, changing, expiring and going - from the network and
 * from an operator here - against a plain record of what stands; who is connected and who gets in. */
#define _GNU_SOURCE
#include "wh.h"
extern struct DenyConf *denyConfList;
static const char *mk[] = { "*@*.bad.net", "bob@*", "*@10.1.2.*", "$R*spam*", "eve@b.*", "joe@a.bad.net", "*@2001:db8:1::/48", "*@c.good.net" };
#define NM 6                     /* masks of the network; the rest are set here */
static struct { int ex, act, st; long expire, lastmod, life; } R[8];
static struct DenyConf deny[2];
static struct Client *O, *S, *U[5];
static struct who { const char *user, *host, *ip, *real; } W[5];
static int pre(const char *s, const char *p) { return !strncmp(s, p, strlen(p)); }
static int covers(int m, struct who *w)
{
  switch (m) {
  case 0: return strlen(w->host) > 8 && !strcmp(w->host + strlen(w->host) - 8, ".bad.net");
  case 1: return !strcmp(w->user, "bob");
  case 2: return pre(w->ip, "10.1.2.");
  case 3: return !!strstr(w->real, "spam");
  case 4: return !strcmp(w->user, "eve") && pre(w->host, "b.");
  case 5: return !strcmp(w->user, "joe") && !strcmp(w->host, "a.bad.net");
  case 6: return pre(w->ip, "2001:db8:1:");
  default: return !strcmp(w->host, "c.good.net");
  }
}
static int eff(int m) { return R[m].ex && R[m].expire > CurrentTime && R[m].life > CurrentTime && (R[m].st == 1 || (R[m].act && R[m].st != 2)); }
static int banned(struct who *w) { int m; for (m = 0; m < 8; m++) if (eff(m) && covers(m, w)) return 1; return 0; }
static int denied(struct who *w)
{
  struct DenyConf *d;
  for (d = denyConfList; d; d = d->next) {
    if (d == &deny[0] && pre(w->host, "d.")) return 1;
    if (d == &deny[1] && !strcmp(w->user, "eve") && !strcmp(w->real, "hi") && pre(w->ip, "10.1.2.")) return 1;
  }
  return 0;
}
/* what every walk over the list does first */
static void walk(void)
{
  int m;
  for (m = 0; m < 8; m++) if (R[m].ex) {
    if (R[m].life <= CurrentTime || (R[m].expire < CurrentTime - 2592000 && R[m].lastmod < CurrentTime - 2592000)) R[m].ex = 0;
    else if (R[m].expire <= CurrentTime) R[m].act = 0, R[m].st = 0;
  }
}
static void sc(unsigned seed)
{
  static const char *us[] = { "joe", "bob", "eve" }, *hs[] = { "a.bad.net", "b.good.net", "c.good.net", "d.bad.net.org" }, *is[] = { "10.1.2.3", "10.1.9.9", "2001:db8:1::5", "2001:db8:2::5" }, *rs[] = { "hi", "spam it" };
  char say[1500], *q = say, nick[20]; int k, i, m, nn = 0; struct irc_in_addr ad; unsigned char bits;
  feature_set(&me, (const char *[]){ "CONFIG_OPERCMDS", "TRUE", 0 }, 2);
  S = wh_server("far.net", "AC"); wh_send(S, "AC EB");
  O = wh_user("oper", "op", "oper.ok", "9.9.9.9"); FlagSet(&wh_conf.privs_dirty, PRIV_PROPAGATE); FlagSet(&wh_conf.privs, PRIV_PROPAGATE); wh_oper(O, 1); SetPriv(O, PRIV_GLINE); SetPriv(O, PRIV_LOCAL_GLINE); SetPriv(O, PRIV_WIDE_GLINE);
  memset(deny, 0, sizeof deny); memset(R, 0, sizeof R);
  deny[0].hostmask = strdup("d.*"); deny[0].next = &deny[1];
  ipmask_parse("10.1.2.*", &ad, &bits); deny[1].usermask = strdup("eve"); deny[1].realmask = strdup("hi"); deny[1].address = ad; deny[1].bits = bits;
  denyConfList = wl_chance(2) ? &deny[0] : 0;
  for (k = 0; k < 40; k++) {
    /* refill */
    for (i = 0; i < 5; i++) if (!U[i]) {
      int r; struct Client *c;
      W[i] = (struct who){ us[wl_below(3)], hs[wl_below(4)], is[wl_below(4)], rs[wl_below(4) == 0] };
      snprintf(nick, sizeof nick, "u%d_%d", i, nn++);
      c = wh_user(nick, W[i].user, W[i].host, W[i].ip); strcpy(cli_info(c), W[i].real);
      walk();
      r = find_kill(c);
      if ((r != 0) != (denied(&W[i]) || banned(&W[i])) || (r == -1) != denied(&W[i])) { walk(); wl_witness("%s then %s@%s [%s] (%s) connects: %s, though %s", say, W[i].user, W[i].host, W[i].ip, W[i].real, r ? r == -1 ? "K-lined" : "G-lined" : "let in", denied(&W[i]) ? "a K-line covers him" : banned(&W[i]) ? "a G-line covers him" : "no ban does"); }
      if (r) { exit_client(c, c, &me, "killed"); continue; }
      U[i] = c;
    }
    int op = wl_below(10), expect = 0, hitm, priv = !wl_chance(5); long e, lm, lf, now;
    if (q > say + 1200) q = say, q += sprintf(q, "...");
    if (wl_chance(5)) { CurrentTime += wl_chance(4) ? 2600000 : 20 + wl_below(200); q += sprintf(q, " [time %ld]", (long)CurrentTime - 1700000000); }
    now = CurrentTime; 
    m = wl_below(NM); e = now + 30 + wl_below(300); if (wl_chance(8)) e = now - 5; lm = now - 20 + wl_below(40); if (R[m].ex && wl_chance(3)) lm = R[m].lastmod + (int)wl_below(3) - 1; lf = wl_chance(2) ? e + wl_below(500) : e;
    if (priv) SetPriv(O, PRIV_LOCAL_GLINE); else ClrPriv(O, PRIV_LOCAL_GLINE);
    switch (op) {
    default: { int a = "+-++ "[wl_below(5)];
      q += sprintf(q, " %c%s until %ld as of %ld;", a, mk[m], e - 1700000000, lm - 1700000000);
      walk();
      if (!R[m].ex) { R[m].ex = 1; R[m].act = a != '-' && e > now; R[m].st = 0; R[m].expire = e; R[m].lastmod = lm; R[m].life = lf; expect = 1; }
      else if (lm > R[m].lastmod) {
        long l = lf > e ? lf : e, top = R[m].expire > e ? R[m].expire : e;
        if (top > now && a != ' ' && R[m].act != (a == '+')) R[m].act = a == '+', R[m].st = 0;
        R[m].expire = e; if (l > R[m].life) R[m].life = l; R[m].lastmod = lm; expect = 1;
      }
      if (a == ' ') wh_send(S, "AC GL * %s %ld %ld %ld :reason %d", mk[m], e, lm, lf, k);
      else wh_send(S, "AC GL * %c%s %ld %ld %ld :reason %d", a, mk[m], e, lm, lf, k);
      break; }
    case 6: { int a = "+-"[wl_below(2)];
      q += sprintf(q, " %c%s as of %ld;", a, mk[m], lm - 1700000000);
      walk();
      if (R[m].ex && lm > R[m].lastmod && R[m].expire > now && R[m].act != (a == '+')) { R[m].act = a == '+'; R[m].st = 0; R[m].lastmod = lm; expect = 1; }
      wh_send(S, "AC GL * %c%s %ld", a, mk[m], lm);
      break; }
    case 7: { int a = "<>"[wl_below(2)];
      q += sprintf(q, " %c%s here%s;", a, mk[m], priv ? "" : " without privilege");
      walk();
      if (R[m].ex && priv && R[m].expire > now) { R[m].st = a == '>' ? 1 : 2; expect = 1; }
      wh_send(O, "GLINE %c%s", a, mk[m]);
      break; }
    case 8: m = NM + wl_below(2);
      q += sprintf(q, " +%s here%s;", mk[m], priv ? "" : " without privilege");
      walk();
      if (!R[m].ex && priv) { R[m].ex = 1; R[m].act = 1; R[m].st = 0; R[m].expire = R[m].life = now + 100; R[m].lastmod = 0; expect = 1; }
      wh_send(O, "GLINE !+%s 100 :local reason", mk[m]);
      break;
    case 9: m = NM + wl_below(2);
      q += sprintf(q, " -%s here%s;", mk[m], priv ? "" : " without privilege");
      walk();
      if (R[m].ex && priv) R[m].ex = 0;
      wh_send(O, "GLINE -%s 100 :local reason", mk[m]);
      break;
    }
    hitm = expect && R[m].ex && (R[m].st == 1 || (R[m].act && R[m].st != 2));
    for (i = 0; i < 5; i++) if (U[i]) {
      int gone = IsDead(U[i]), j; (void)j;
      { int fd, there = 0; for (fd = 0; fd <= HighestFd; fd++) if (LocalClientArray[fd] == U[i]) there = 1; gone = !there; }
      if (gone != (hitm && covers(m, &W[i]))) wl_witness("%s %s@%s [%s] (%s) is %s", say, W[i].user, W[i].host, W[i].ip, W[i].real, gone ? "thrown out, though not covered" : "kept, though covered");
      if (gone) U[i] = 0;
    }
    /* what a server that joins now is told */
    if (wl_chance(3)) {
      const char *o; char want[200]; int n = 0, due = 0;
      walk(); wh_clear(); gline_burst(S); o = wh_out(S);
      for (i = 0; i < NM; i++) if (R[i].ex) {
        due++;
        snprintf(want, sizeof want, " GL * %c%s %lu %ld %ld :", R[i].act ? '+' : '-', mk[i], (unsigned long)(R[i].expire - CurrentTime), R[i].lastmod, R[i].life);
        if (!strstr(o, want)) wl_witness("%s a server joins and is not told%s but [%.300s]", say, want, o);
      }
      for (; (o = strstr(o, " GL * ")); o++) n++;
      if (n != due) wl_witness("%s a server joins and is told of %d G-lines where there are %d", say, n, due);
    }
    if (LocalClientArray[cli_fd(O)] != O) wl_witness("%s the operator is thrown out", say);
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 300, 14); }
