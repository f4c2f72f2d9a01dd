/* C20 replay: the target limit against a reference, and through PRIVMSG */
#include "wh.h"
#include "channel.h"
#include "s_user.h"
static unsigned char H(void *p) { return (unsigned char)(((unsigned long)p >> 16) ^ ((unsigned long)p >> 8)); }
static void show(char *b, const unsigned char *t) { int i; for (i = 0; i < 20; i++) b += sprintf(b, "%02x ", t[i]); }
static void sc(unsigned seed)
{
  struct Client *s = wh_user("snd", "snd", "snd.host.org", "10.1.2.2"), *d[30]; struct Channel *c[4]; int i, k; char nm[20];
  for (i = 0; i < 30; i++) { snprintf(nm, sizeof nm, "u%d", i); d[i] = wh_user(nm, "u", "u.host.org", "10.1.2.3"); }
  for (i = 0; i < 4; i++) { snprintf(nm, sizeof nm, "#c%d", i); wh_send(d[i], "JOIN %s", nm); c[i] = FindChannel(nm); }
  for (i = 0; i < 4; i++) if (c[i] && wl_chance(4)) add_invite(s, c[i]);
  for (k = 0; k < 60; k++) {
    unsigned char *t = cli_targets(s), was[20], want[20]; void *tg; struct Client *a = 0; struct Channel *ch = 0; time_t nx = cli_nexttarget(s), wn; int pos, inv, wr, got; char b1[80], b2[80], b3[80];
    if (wl_chance(8)) for (i = 0; i < 20; i++) t[i] = wl_rnd();
    if (wl_chance(5)) CurrentTime += wl_below(4000);
    if (wl_chance(8)) nx = cli_nexttarget(s) = CurrentTime + (int)wl_below(400) - 200;
    if (wl_chance(10)) nx = cli_nexttarget(s) = CurrentTime - wl_below(10000);
    if (wl_chance(2)) tg = a = d[wl_below(30)]; else { tg = ch = c[wl_below(4)]; if (!ch) continue; }
    if (wl_chance(4)) t[wl_below(20)] = H(tg);
    memcpy(was, t, 20); memcpy(want, t, 20); wn = nx; wr = 0;
    for (pos = 0; pos < 20 && was[pos] != H(tg); pos++);
    if (wl_chance(3)) {
      if (pos == 20) { memmove(want + 13, was + 12, 7); want[12] = H(tg); }
      add_target(s, tg); got = 0;
      if (memcmp(t, want, 20) || cli_nexttarget(s) != wn) { show(b1, was); show(b2, want); show(b3, t); wl_witness("add_target(%02x): %s-> %s, should be %s", H(tg), b1, b3, b2); }
      continue;
    }
    inv = ch && IsInvited(s, ch);
    if (pos < 20) { memmove(want + 1, was, pos); want[0] = H(tg); }
    else if (CurrentTime < nx) { if (!inv) { wr = 1; if (nx - CurrentTime < 136) wn = nx + 2; } }
    else { memmove(want + 1, was, 19); want[0] = H(tg); wn = nx + 128; if (wn < CurrentTime - 128 * 19) wn = CurrentTime - 128 * 19; }
    got = check_target_limit(s, a, ch);
    if (!!got != wr || cli_nexttarget(s) != wn || memcmp(t, want, 20)) {
      show(b1, was); show(b2, want); show(b3, t);
      wl_witness("a %s target %02x%s, next allowed in %ld s, remembered %s: %s, next in %ld s, remembered %s; should be %s, next in %ld s, remembered %s", pos < 20 ? "remembered" : "new", H(tg), inv ? " (invited)" : "", (long)(nx - CurrentTime), b1,
                 got ? "refused" : "let through", (long)(cli_nexttarget(s) - CurrentTime), b3, wr ? "refused" : "let through", (long)(wn - CurrentTime), b2);
    }
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 2500, 60); }
