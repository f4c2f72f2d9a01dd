/* C02, C18, C30 replay: users take, change and lose nicks; a model of who has which says what must come of it */
#include "wh.h"
#include "whowas.h"
static struct P { struct Client *c; char name[40], user[12], ip[12], yxx[8]; long ts; int local, live, fd; } p[40];
static int np;
static struct Client *S;
static unsigned char fold(unsigned char c) { return c >= 'A' && c <= '^' ? c + 32 : c; }
static int nickchar(unsigned char c) { return (c >= 'A' && c <= '~') || (c >= '0' && c <= '9') || c == '-'; }
static int same(const char *a, const char *b) { for (; *a && fold(*a) == fold(*b); a++, b++); return fold(*a) == fold(*b); }
static struct P *holder(const char *n) { int i; for (i = 0; i < np; i++) if (p[i].live && same(p[i].name, n)) return &p[i]; return 0; }
static const char *pick(void)
{
  static const char *pool[] = { "alice", "ALICE", "Al[ice", "al{ice", "AL{ICE", "bob", "b^b", "b~b", "bo~b", "1abc", "-abc", "a-1", "_x", "`y", "elevenchars", "twelvecharsx", "thirteencharx", "fifteencharsxyz", "sixteencharsxyzw", "a.b", "a@b", "a,b", "c\xe4", "d", "D", "~", "0", "|", "\\", "e!f", "9", "-" };
  return pool[wl_below(sizeof pool / sizeof *pool)];
}
static const char *say(struct P *q) { static char b[4][160]; static int k; char *o = b[k = (k + 1) & 3]; if (!q) return "nobody"; snprintf(o, 160, "%s (%s, %s@%s, since %ld)", q->name, q->local ? "local" : "remote", q->user, q->ip, q->ts); return o; }
static void check(int what, const char *why)
{
  int i;
  for (i = 0; i < np; i++) {
    struct P *q = &p[i];
    int there = q->local ? LocalClientArray[q->fd] == q->c : findNUser(q->yxx) != 0;
    if (what != W) { if (there != q->live) { q->live = there; if (there) strcpy(q->name, cli_name(q->c)); } else if (there && strcmp(cli_name(q->c), q->name)) strcpy(q->name, cli_name(q->c)), q->ts = cli_lastnick(q->c); continue; }
    if (there != q->live) wl_witness("%s: %s should %s, %s", why, say(q), q->live ? "stay" : "be gone", there ? "is there" : "is gone");
    if (there && strcmp(cli_name(q->c), q->name)) wl_witness("%s: should be called %s, is called %s", why, q->name, cli_name(q->c));
  }
}
static void lookups(const char *why)
{
  int i, j; char b[40], d[40];
  if (W != 2) return;
  for (i = 0; i < np; i++) {
    struct Client *f, *want; struct P *h;
    if (!p[i].name[0]) continue;
    strcpy(b, p[i].name); strcpy(d, p[i].name);
    for (j = 0; b[j]; j++) { if (b[j] >= 'A' && b[j] <= '^') b[j] += 32; if (d[j] >= 'a' && d[j] <= '~') d[j] -= 32; }
    h = holder(p[i].name); want = h ? h->c : 0;
    if ((f = FindClient(b)) != want || (f = FindUser(d)) != want) wl_witness("%s: looking up %s should find %s, finds %s", why, b, say(h), f ? cli_name(f) : "nobody");
  }
}
#if W == 2
#include <signal.h>
static void endless(int sig) { wl_witness("a lookup after some additions and removals does not end"); }
/* many entries, so that buckets are shared */
static void crowd(void)
{
  enum { N = 1500 };
  static struct Client *c[N]; static struct Channel *ch[N]; static char in[N], inch[N]; int i, j;
  signal(SIGALRM, endless); alarm(8);
  for (i = 0; i < N; i++) {
    char b[20]; struct Channel *x;
    c[i] = make_client(&me, wl_chance(3) ? STAT_SERVER : STAT_USER); sprintf(cli_name(c[i]), "Cl%x", i * 7919); hAddClient(c[i]); in[i] = 1;
    x = calloc(1, sizeof *x + 20); sprintf(x->chname, "#Ch%x", i * 104729); sprintf(b, "%d", i); hAddChannel(x); ch[i] = x; inch[i] = 1;
  }
  for (j = 0; j < 6000; j++) {
    char b[40], d[40]; int k, m; struct Client *f, *want; struct Channel *g;
    i = wl_below(N); k = wl_below(4);
    if (wl_chance(6)) { if (in[i]) { if (hRemClient(c[i])) wl_witness("%s is in the table but could not be removed", cli_name(c[i])); } else hAddClient(c[i]); in[i] = !in[i]; }
    else if (wl_chance(6) && in[i] && strlen(cli_name(c[i])) < 12) { strcpy(b, cli_name(c[i])); strcat(b, "x"); hChangeClient(c[i], b); strcpy(cli_name(c[i]), b); }
    if (wl_chance(6)) { if (inch[i]) { if (hRemChannel(ch[i])) wl_witness("%s is in the table but could not be removed", ch[i]->chname); } else hAddChannel(ch[i]); inch[i] = !inch[i]; }
    i = wl_below(N); strcpy(b, cli_name(c[i])); strcpy(d, ch[i]->chname);
    for (m = 0; b[m]; m++) if (k & 1 && b[m] >= 'A' && b[m] <= 'Z') b[m] += 32;
    for (m = 0; d[m]; m++) if (k & 2 && d[m] >= 'a' && d[m] <= 'z') d[m] -= 32;
    m = wl_chance(3) ? STAT_USER : wl_chance(2) ? STAT_SERVER : ~0;
    want = in[i] && (cli_status(c[i]) & m) ? c[i] : 0;
    if ((f = hSeekClient(b, m)) != want) wl_witness("after %d changes: looking up %s (states %x) finds %s", j, b, m, f ? cli_name(f) : "nobody");
    if ((g = hSeekChannel(d)) != (inch[i] ? ch[i] : 0)) wl_witness("after %d changes: looking up %s finds %s", j, d, g ? g->chname : "nothing");
  }
}
#endif
static void lose(struct P *q) { q->live = 0; }
static void sc(unsigned s)
{
  static const char *us[] = { "u1", "u2" }, *ips[] = { "AKAQID", "AKAQIE" }, *dot[] = { "10.1.2.3", "10.1.2.4" };
  int i, k, next = 0; char why[500];
#if W == 2
  if (wl_chance(10)) { crowd(); return; }
#endif
  S = wh_server("hub.test.net", "AC");
  wh_send(S, "AC EB"); wh_send(S, "AC EA");
  for (i = 0; i < 4; i++) {
    struct P *q = &p[np++]; k = wl_below(2);
    sprintf(q->name, "user%d", i); strcpy(q->user, us[k]); strcpy(q->ip, ips[wl_below(2)]);
    q->c = wh_user(q->name, q->user, "h.org", q->ip[5] == 'D' ? dot[0] : dot[1]);
    q->local = q->live = 1; q->ts = cli_lastnick(q->c); q->fd = cli_fd(q->c);
  }
  for (i = 0; i < 30; i++) {
    const char *n = pick(); struct P *q, *h; int op = wl_below(10), valid, j; char v[40];
    CurrentTime += wl_below(3);
    if (np < 36 && op >= 7) {                     /* a new user from the network */
      int diff, newl; long ts;
      q = &p[np]; memset(q, 0, sizeof *q);
      strcpy(q->user, us[wl_below(2)]); strcpy(q->ip, ips[wl_below(2)]);
      sprintf(q->yxx, "ACA%c%c", 'A' + next / 26, 'A' + next % 26); next++;
      h = holder(n);
      ts = h && wl_chance(2) ? h->ts - 2 + (long)wl_below(5) : CurrentTime - 1000 + (long)wl_below(2000);
      q->ts = ts; strcpy(q->name, n);
      valid = strlen(n) <= 15 && *n && *n != '-' && !(*n >= '0' && *n <= '9'); for (j = 0; n[j]; j++) if (!nickchar(n[j])) valid = 0;
      snprintf(why, sizeof why, "new user %s, TS %ld, %s@%s, while %s has the nick", n, ts, q->user, q->ip, say(h));
      wh_clear();
      wh_send(S, "AC N %s 1 %ld %s h.org %s %s :info", n, ts, q->user, q->ip, q->yxx);
      if (!valid) { np++; q->name[0] = 0; check(18, why); lookups(why); continue; }
      np++;
      if (!h) { q->live = 1; q->c = findNUser(q->yxx); check(18, why); lookups(why); continue; }
      diff = strcmp(h->user, q->user) || strcmp(h->ip, q->ip);
      newl = diff ? ts >= h->ts : ts <= h->ts;
      q->live = !newl; if (!newl || ts == h->ts) lose(h);
      q->c = findNUser(q->yxx);
      check(30, why); lookups(why);
      continue;
    }
    q = &p[wl_below(np)];
    if (!q->live) continue;
    h = holder(n);
    if (op == 6) {                                /* somebody leaves */
      if (q->local) continue;
      snprintf(why, sizeof why, "%s quits", say(q));
      wh_send(S, "%s Q :bye", q->yxx); lose(q); check(2, why); lookups(why);
    } else if (q->local) {
      wh_clear(); cli_nextnick(q->c) = 0;
      snprintf(why, sizeof why, "NICK %s by %s, while %s has it", wl_quote(n), say(q), say(h));
      strcpy(v, n); v[12] = strlen(n) > 12 ? 0 : v[12];
      if (strchr(v, '~')) *strchr(v, '~') = 0;
      valid = *v && *v != '-' && !(*v >= '0' && *v <= '9');
      if (valid) { for (j = 0; v[j] && nickchar(v[j]); j++); v[j] = 0; valid = j > 0; }
      wh_send(q->c, "NICK :%s", n);
      if (!valid) { check(18, why); lookups(why); continue; }
      h = holder(v);
      if (!h || h == q) { if (!same(v, q->name)) q->ts = TStime(); strcpy(q->name, v); check(h ? 2 : 18, why); }
      else check(30, why);
      lookups(why);
    } else {
      long ts = h && wl_chance(2) ? h->ts - 2 + (long)wl_below(5) : CurrentTime - 1000 + (long)wl_below(2000); int diff, newl;
      valid = strlen(n) <= 15 && *n && *n != '-' && !(*n >= '0' && *n <= '9'); for (j = 0; n[j]; j++) if (!nickchar(n[j])) valid = 0;
      snprintf(why, sizeof why, "change to %s, TS %ld, of %s, while %s has it", wl_quote(n), ts, say(q), say(h));
      wh_clear(); wh_send(S, "%s N %s %ld", q->yxx, n, ts);
      if (!valid) { check(18, why); lookups(why); continue; }
      if (!h || h == q) { if (strcmp(n, q->name)) { if (!same(n, q->name)) q->ts = ts; strcpy(q->name, n); } check(18, why); lookups(why); continue; }
      diff = strcmp(h->user, q->user) || strcmp(h->ip, q->ip);
      newl = diff ? ts >= h->ts : ts <= h->ts;
      if (newl) lose(q);
      else { q->ts = ts; strcpy(q->name, n); }
      if (!newl || ts == h->ts) lose(h);
      check(30, why); lookups(why);
    }
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 300, 14); }
