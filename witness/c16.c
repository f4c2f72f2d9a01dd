/* C16 replay: MODE of a user by himself, with any letters */
#include "wr.h"
#include "ircd_features.h"
#define F(c, f) (!!HasFlag(c, f))
static void feat(const char *n, int v) { const char *a[3] = { n, v ? "TRUE" : "FALSE", 0 }; feature_set(0, a, 2); }
static void sc(unsigned s)
{
  static const int up[] = { FLAG_OPER, FLAG_LOCOP, FLAG_CHSERV, FLAG_ACCOUNT, FLAG_TLS }, keep[] = { FLAG_ACCOUNT, FLAG_TLS, FLAG_HIDDENHOST };
  static const char *un[] = { "operator", "local operator", "service", "account", "TLS" }, *kn[] = { "account", "TLS", "hidden host" };
  static const struct { int f; const char *n; } cond[] = { { FLAG_WALLOP, "WALLOPS_OPER_ONLY" }, { FLAG_DEBUG, "HIS_DEBUG_OPER_ONLY" }, { FLAG_SERVNOTICE, "HIS_SNOTICES_OPER_ONLY" } };
  int i, j;
  wr_setup();
  for (i = 0; i < 60; i++) {
    int u = wl_below(4), n, was_op, is_op, ops, inv, hh = wl_chance(2), fe[3], other = wl_chance(12), p; struct Client *c = wr_u[u], *d; struct Flags f0, g0; struct Privs p0; char mo[200], *q = mo, why[400], acc[ACCOUNTLEN + 1], fp[65]; int h0;
    feat("HOST_HIDING", hh);
    for (j = 0; j < 3; j++) feat(cond[j].n, fe[j] = wl_chance(2));
    if (F(c, FLAG_OPER)) --UserStats.opers;
    if (F(c, FLAG_INVISIBLE)) --UserStats.inv_clients;
    for (j = FLAG_LOCOP; j <= FLAG_COMMONCHANS; j++) if (j != FLAG_HIDDENHOST && j != FLAG_CAP302 && j != FLAG_SASL && j != FLAG_SPAMHOLD) { if (wl_chance(2)) SetFlag(c, j); else ClrFlag(c, j); }
    if (F(c, FLAG_OPER)) ClrFlag(c, FLAG_LOCOP);
    if (wl_chance(2)) ClrFlag(c, FLAG_OPER), ClrFlag(c, FLAG_LOCOP);
    if (F(c, FLAG_OPER)) ++UserStats.opers;
    if (F(c, FLAG_INVISIBLE)) ++UserStats.inv_clients;
    was_op = F(c, FLAG_OPER) || F(c, FLAG_LOCOP);
    cli_handler(c) = was_op ? OPER_HANDLER : CLIENT_HANDLER;
    memset(cli_privs(c), 0, sizeof(struct Privs));
    if (was_op) { for (j = 0; j < PRIV_LAST_PRIV; j++) if (wl_chance(2)) SetPriv(c, j); if (F(c, FLAG_OPER)) SetPriv(c, PRIV_PROPAGATE); }
    strcpy(cli_user(c)->account, F(c, FLAG_ACCOUNT) ? "theacc" : "");
    strcpy(cli_tls_fingerprint(c), F(c, FLAG_TLS) ? "abcdef" : "");
    strcpy(acc, cli_user(c)->account); strcpy(fp, cli_tls_fingerprint(c));
    f0 = cli_flags(c); p0 = *cli_privs(c); ops = UserStats.opers; inv = UserStats.inv_clients; h0 = cli_handler(c);
    *q++ = '+';
    for (n = 1 + wl_below(10); n; n--) *q++ = "+-+-owisdRkgxrzIcOOokqo"[wl_below(23)];
    *q = 0;
    if (wl_chance(2)) q += sprintf(q, " %s", wl_chance(2) ? "evil:1:1" : wl_chance(2) ? "+4096" : "x");
    if (wl_chance(3)) q += sprintf(q, " %s", wl_chance(2) ? "evil2" : "+o");
    d = other ? wr_u[(u + 1) % 4] : c;
    g0 = cli_flags(d);
    snprintf(why, sizeof why, "MODE %s %s by %s (%s%s%s%s)", cli_name(d), mo, cli_name(c), F(c, FLAG_OPER) ? "o" : "", F(c, FLAG_LOCOP) ? "O" : "", F(c, FLAG_CHSERV) ? "k" : "", F(c, FLAG_ACCOUNT) ? "r" : "");
    wh_clear();
    wh_send(c, "MODE %s %s", cli_name(d), mo);
    if (other) { if (memcmp(&g0, &cli_flags(d), sizeof g0)) wl_witness("%s changed the modes of someone else", why); continue; }
    is_op = F(c, FLAG_OPER) || F(c, FLAG_LOCOP);
    for (j = 0; j < 5; j++) if (F(c, up[j]) && !FlagHas(&f0, up[j])) wl_witness("%s: gained %s", why, un[j]);
    for (j = 0; j < 3; j++) if (!F(c, keep[j]) && FlagHas(&f0, keep[j])) wl_witness("%s: lost %s", why, kn[j]);
    for (j = 0; j < 3; j++) if (fe[j] && F(c, cond[j].f) && !FlagHas(&f0, cond[j].f) && !is_op) wl_witness("%s: gained a mode that only operators may have (%d)", why, j);
    for (j = 0; j < FLAG_LOCOP; j++) if (j != FLAG_TS8 && F(c, j) != !!FlagHas(&f0, j)) wl_witness("%s: changed internal flag %d", why, j);
    if (!hh && F(c, FLAG_HIDDENHOST) && !FlagHas(&f0, FLAG_HIDDENHOST)) wl_witness("%s: hid the host though host hiding is off", why);
    if (strcmp(acc, cli_user(c)->account) || strcmp(fp, cli_tls_fingerprint(c))) wl_witness("%s: account %s, fingerprint %s afterwards", why, cli_user(c)->account, cli_tls_fingerprint(c));
    if (was_op && !is_op) { if (cli_handler(c) != CLIENT_HANDLER) wl_witness("%s: no operator any more, but keeps the operator commands", why); for (p = 0; p < PRIV_LAST_PRIV; p++) if (HasPriv(c, p)) wl_witness("%s: no operator any more, but keeps privilege %d", why, p); }
    else if (cli_handler(c) != h0 || memcmp(&p0, cli_privs(c), sizeof p0)) wl_witness("%s: privileges or handler changed", why);
    if ((int)UserStats.opers - ops != F(c, FLAG_OPER) - !!FlagHas(&f0, FLAG_OPER)) wl_witness("%s: operator count went from %d to %d", why, ops, UserStats.opers);
    if ((int)UserStats.inv_clients - inv != F(c, FLAG_INVISIBLE) - !!FlagHas(&f0, FLAG_INVISIBLE)) wl_witness("%s: count of invisible users went from %d to %d", why, inv, UserStats.inv_clients);
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 250, 14); }
