#include "wh.h"
#include "ircd_snprintf.h"
#include "spec_cidr.h"
#include "spec_str.h"
static const char *T[] = { "alice", "bob", "a*", "*", "al?ce", "*ob" };
static const char *H[] = { "host.a.org", "h.b.net", "*.a.org", "*", "10.1.2.3", "10.1.*", "10.1.2.0/24", "10.0.0.0/8", "10.1.2.4/31", "2001:db8::/33", "2001:db8:8000::/33", "2001:db8::1", "acc.users.undernet.org", "*.undernet.org", "real.x.org", "*.x.org", "2001:db8:*", "10.1.2.128/25" };
static const char *IP[] = { "10.1.2.3", "10.1.2.4", "10.1.2.200", "10.200.2.3", "2001:db8::1", "2001:db8:8000::7", "2001:db9::1", "11.1.2.3" };
#define PICK(a) a[wl_below(sizeof a / sizeof a[0])]
static int covers(struct Client *c, struct Ban *b)
{
  char nu[64], ip[SOCKIPLEN + 1], alt[200], mask[200]; char *at;
  snprintf(nu, sizeof nu, "%s!%s", cli_name(c), cli_user(c)->username);
  ircd_ntoa_r(ip, &cli_ip(c));
  strcpy(mask, b->banstr); at = strrchr(mask, '@'); *at++ = 0;
  if (match(mask, nu)) return 0;
  if ((b->flags & BAN_IPMASK) && spec_prefix_eq(&cli_ip(c), &b->address, b->addrbits)) return 1;
  if (!match(at, cli_user(c)->host) || !match(at, ip)) return 1;
  if (!IsAccount(c)) return 0;
  if (HasHiddenHost(c)) return !match(at, cli_user(c)->realhost);
  snprintf(alt, sizeof alt, "%s.%s", cli_user(c)->account, feature_str(FEAT_HIDDEN_HOST));
  return !match(at, alt);
}
/* what a mask covers */
static int cov(const char *m, const char *n)
{
  if (!*m) return !*n;
  if (*m == '*') { for (;; n++) { if (cov(m + 1, n)) return 1; if (!*n) return 0; } }
  if (!*n) return 0;
  if (*m == '?') return cov(m + 1, n + 1);
  if (*m == '\\') return m[1] == *n && cov(m + 2, n + 1);
  return spec_fold((unsigned char)*m) == spec_fold((unsigned char)*n) && cov(m + 1, n + 1);
}
static void masks(void)
{
  static const char A[] = "ab{*?\\", B[] = "abA[*?\\";
  int i, j;
  for (i = 0; i < 60000; i++) {
    char *m = malloc(10), *n = malloc(10); int ml = wl_below(9), nl = wl_below(9), k = 2 + wl_below(sizeof A - 2);
    for (j = 0; j < ml; j++) m[j] = wl_chance(3) ? "*?"[wl_chance(4)] : A[wl_below(k)];
    m[ml] = 0;
    for (j = 0; j < nl; j++) n[j] = B[wl_below(k + 1)];
    n[nl] = 0;
    m = realloc(m, ml + 1); n = realloc(n, nl + 1);
    if (!match(m, n) != cov(m, n)) wl_witness("match(\"%s\", \"%s\") says %s", m, n, cov(m, n) ? "no match" : "match");
    free(m); free(n);
  }
}
static void sc(unsigned s)
{
  int i, j, n;
  struct Client *c = wh_user("alice", "bob", "host.a.org", "10.1.2.3");
  masks();
  for (i = 0; i < 20000; i++) {
    struct irc_in_addr a, m; int bits = wl_below(129), want, k = wl_below(130);
    for (j = 0; j < 8; j++) a.in6_16[j] = m.in6_16[j] = (unsigned short)wl_rnd();
    if (k < 128) m.in6_16[k >> 4] ^= htons(0x8000 >> (k & 15));
    if (wl_chance(3)) m.in6_16[wl_below(8)] ^= 1 << wl_below(16);
    want = spec_prefix_eq(&a, &m, bits);
    if (!!ipmask_check(&a, &m, bits) != want) {
      char x[80], y[80];
      wl_witness("ipmask_check(%s, %s, %d) answers %d, the first %d bits %s", ircd_ntoa_r(x, &a), ircd_ntoa_r(y, &m), bits, !want, bits, want ? "agree" : "differ");
    }
  }
  for (i = 0; i < 3000; i++) {
    struct Ban *list = 0, *b, *r; int den = 0, exc = 0;
    strcpy(cli_name(c), wl_chance(2) ? "alice" : "bob"); strcpy(cli_user(c)->username, wl_chance(2) ? "alice" : "bob");
    strcpy(cli_user(c)->realhost, wl_chance(2) ? "host.a.org" : "real.x.org"); strcpy(cli_user(c)->host, cli_user(c)->realhost);
    ircd_aton(&cli_ip(c), PICK(IP));
    ClrFlag(c, FLAG_ACCOUNT); ClrFlag(c, FLAG_HIDDENHOST); cli_user(c)->account[0] = 0;
    if (wl_chance(2)) { SetFlag(c, FLAG_ACCOUNT); strcpy(cli_user(c)->account, "acc"); }
    if (wl_chance(2)) SetFlag(c, FLAG_HIDDENHOST);
    if (HasHiddenHost(c)) snprintf(cli_user(c)->host, HOSTLEN, "%s.%s", cli_user(c)->account, feature_str(FEAT_HIDDEN_HOST));
    n = wl_below(4);
    for (j = 0; j < n; j++) {
      char t[200]; snprintf(t, sizeof t, "%s!%s@%s", PICK(T), PICK(T), PICK(H));
      b = make_ban(t);
      if (wl_chance(3)) b->flags |= BAN_EXCEPTION;
      b->next = list; list = b;
    }
    for (b = list; b; b = b->next) { if (!covers(c, b)) continue; if (b->flags & BAN_EXCEPTION) exc = 1; else den = 1; }
    r = find_ban(c, list);
    if (!!r != (den && !exc)) {
      printf("client %s!%s@%s ip %s realhost %s account %s\n", cli_name(c), cli_user(c)->username, cli_user(c)->host, ircd_ntoa(&cli_ip(c)), cli_user(c)->realhost, cli_user(c)->account);
      for (b = list; b; b = b->next) printf("  %s %s flags %x bits %d covers %d\n", b->flags & BAN_EXCEPTION ? "except" : "ban", b->banstr, b->flags, b->addrbits, covers(c, b));
      wl_witness("find_ban says %s, the list says %s", r ? "banned" : "not banned", den && !exc ? "banned" : "not banned");
    }
    while ((b = list)) { list = b->next; b->next = 0; free_ban(b); }
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 12, 60); }
