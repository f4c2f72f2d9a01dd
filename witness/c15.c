/* C15 replay: becoming and ceasing to be an operator: OPER, OPER from a server, OPMODE of a user, MODE +o */
#include "wr.h"
#include "s_conf.h"
#include "class.h"
#include "ircd_alloc.h"
char *__wrap_ircd_crypt(const char *key, const char *salt) { char *r; DupString(r, key); return r; }
static struct ConfItem cf[4]; static struct ConnectionClass cls[4], dfl; static struct ConfItem uw;
struct ConnectionClass *__wrap_find_remote_oper_class(void) { return wl_chance(1) ? &dfl : 0; }
static const char *pname[] = { "CHAN_LIMIT", "MODE_LCHAN", "WALK_LCHAN", "DEOP_LCHAN", "SHOW_INVIS", "SHOW_ALL_INVIS", "UNLIMIT_QUERY", "KILL", "LOCAL_KILL", "REHASH", "RESTART", "DIE", "GLINE", "LOCAL_GLINE", "JUPE", "LOCAL_JUPE", "OPMODE", "LOCAL_OPMODE", "SET", "WHOX", "BADCHAN", "LOCAL_BADCHAN", "SEE_CHAN", "PROPAGATE", "DISPLAY", "SEE_OPERS", "WIDE_GLINE", "LIST_CHAN" };
static int dflt(int global, int p)
{
  if (global) return !(p == PRIV_WALK_LCHAN || p == PRIV_SET || p == PRIV_BADCHAN || p == PRIV_LOCAL_BADCHAN || p == PRIV_APASS_OPMODE);
  switch (p) { case PRIV_CHAN_LIMIT: case PRIV_MODE_LCHAN: case PRIV_SHOW_INVIS: case PRIV_SHOW_ALL_INVIS: case PRIV_LOCAL_KILL: case PRIV_REHASH: case PRIV_LOCAL_GLINE: case PRIV_LOCAL_JUPE: case PRIV_LOCAL_OPMODE: case PRIV_WHOX: case PRIV_DISPLAY: case PRIV_FORCE_LOCAL_OPMODE: return 1; }
  return 0;
}
static int conf_priv(struct ConfItem *o, struct ConnectionClass *c, int p)
{
  int g = o && FlagHas(&o->privs_dirty, PRIV_PROPAGATE) ? !!FlagHas(&o->privs, PRIV_PROPAGATE) : !!FlagHas(&c->privs, PRIV_PROPAGATE);
  if (o && FlagHas(&o->privs_dirty, p)) return !!FlagHas(&o->privs, p);
  if (FlagHas(&c->privs_dirty, p)) return !!FlagHas(&c->privs, p);
  return dflt(g, p);
}
static int want_priv(struct ConfItem *o, struct ConnectionClass *c, int p)
{
  int g = conf_priv(o, c, PRIV_PROPAGATE);
  if (p == PRIV_DISPLAY && g) return 1;
  if (!g && (p == PRIV_KILL || p == PRIV_GLINE || p == PRIV_JUPE || p == PRIV_OPMODE || p == PRIV_BADCHAN)) return 0;
  return conf_priv(o, c, p);
}
static void rnd_privs(struct Privs *a, struct Privs *d) { int p; memset(a, 0, sizeof *a); memset(d, 0, sizeof *d); for (p = 0; p < PRIV_LAST_PRIV; p++) if (wl_chance(3)) { FlagSet(d, p); if (wl_chance(2)) FlagSet(a, p); } }
static int check_privs(struct Client *c, struct ConfItem *o, struct ConnectionClass *k, const char *why)
{
  int p;
  for (p = 0; p < PRIV_LAST_PRIV; p++) if (!!HasPriv(c, p) != want_priv(o, k, p)) {
    wl_witness("%s: operator %s privilege %s (%d), configured: %s (in the block: %s, in the class: %s)", why, HasPriv(c, p) ? "has" : "lacks", p < 28 ? pname[p] : "?", p, want_priv(o, k, p) ? "yes" : "no",
      o && FlagHas(&o->privs_dirty, p) ? FlagHas(&o->privs, p) ? "yes" : "no" : "unset", FlagHas(&k->privs_dirty, p) ? FlagHas(&k->privs, p) ? "yes" : "no" : "unset");
  }
  return 0;
}
static void unoper(struct Client *c)
{
  if (HasFlag(c, FLAG_OPER)) { ClrFlag(c, FLAG_OPER); --UserStats.opers; }
  ClrFlag(c, FLAG_LOCOP);
  cli_handler(c) = CLIENT_HANDLER; memset(cli_privs(c), 0, sizeof(struct Privs));
}
static int plain(struct Client *c) { int p; if (HasFlag(c, FLAG_OPER) || HasFlag(c, FLAG_LOCOP) || cli_handler(c) != CLIENT_HANDLER) return 0; for (p = 0; p < PRIV_LAST_PRIV; p++) if (HasPriv(c, p)) return 0; return 1; }
static void sc(unsigned s)
{
  static const char *um[] = { 0, "*", "alice", "b*", "nobody" }, *hm[] = { "*", "*.host.org", "alice.host.org", "*.elsewhere" }, *onm[] = { "op", "OP", "admin" }, *pw[] = { "secret", "Secret", "x" };
  int i, j; struct SLink *l;
  wr_setup();
  dfl.cc_name = "remote";
  for (i = 0; i < 30; i++) {
    int u = wl_below(4), k = wl_below(6), n; struct Client *c = wr_u[u]; char why[300]; struct ConfItem *want = 0; unsigned long f0;
    GlobalConfList = 0;
    memset(&dfl, 0, sizeof dfl); dfl.cc_name = "remote"; rnd_privs(&dfl.privs, &dfl.privs_dirty); FlagSet(&dfl.privs_dirty, PRIV_PROPAGATE);
    for (j = 3; j >= 0; j--) {
      memset(&cf[j], 0, sizeof cf[j]); memset(&cls[j], 0, sizeof cls[j]);
      cls[j].cc_name = "opers"; cls[j].max_sendq = 1000000; cls[j].max_links = wl_chance(3) ? 0 : 1 + wl_below(3); cls[j].ref_count = wl_below(4);
      rnd_privs(&cls[j].privs, &cls[j].privs_dirty); FlagSet(&cls[j].privs_dirty, PRIV_PROPAGATE);
      cf[j].status = wl_chance(8) ? CONF_CLIENT : CONF_OPERATOR; cf[j].conn_class = &cls[j]; cf[j].name = (char *)onm[wl_below(3)]; cf[j].username = (char *)um[wl_below(5)]; cf[j].host = (char *)hm[wl_below(4)];
      cf[j].addrbits = -1; cf[j].passwd = wl_chance(10) ? 0 : (char *)pw[wl_below(3)]; cf[j].tls_fingerprint = wl_chance(4) ? "ABCD" : wl_chance(2) ? "" : 0;
      cf[j].clients = wl_below(3);
      if (wl_chance(5)) { cf[j].addrbits = 96 + 8 * (2 + wl_below(3)); cf[j].host = "addr"; ircd_aton(&cf[j].address.addr, wl_chance(2) ? "10.1.2.2" : "10.1.9.9"); }
      if (wl_chance(12)) cf[j].status |= CONF_ILLEGAL;
      rnd_privs(&cf[j].privs, &cf[j].privs_dirty);
      cf[j].next = GlobalConfList; GlobalConfList = &cf[j];
    }
    cf[3].next = 0;
    for (j = 0; j < 4; j++) unoper(wr_u[j]);
    strcpy(cli_tls_fingerprint(c), wl_chance(2) ? "abcd" : wl_chance(2) ? "" : "beef");
    wh_clear();
    if (k < 3) {
      const char *nm = onm[wl_below(3)], *p = pw[wl_below(3)]; int ok;
      for (j = 0; j < 4 && !want; j++) {
        if (!(cf[j].status & CONF_OPERATOR) || strcasecmp(cf[j].name, nm)) continue;
        if (cf[j].username && !(!strcmp(cf[j].username, "*") || !strcmp(cf[j].username, cli_username(c)) || (cf[j].username[0] == 'b' && cli_username(c)[0] == 'b'))) continue;
        if (cf[j].addrbits >= 0) { int full = 0; unsigned char a[4] = {10,1,2,0}, b[4] = {10,1,0,0}; a[3] = u + 2; b[2] = ntohs(cf[j].address.addr.in6_16[7]) >> 8; b[3] = ntohs(cf[j].address.addr.in6_16[7]) & 255; full = (cf[j].addrbits - 96) / 8; if (memcmp(a, b, full)) continue; }
        else if (strcmp(cf[j].host, "*") && strcmp(cf[j].host, "*.host.org") && !(u == 0 && cf[j].host[0] == 'a')) continue;
        if (cls[j].max_links && cf[j].clients >= cls[j].max_links) continue;
        want = &cf[j];
      }
      ok = want && !(want->status & CONF_ILLEGAL) && (!want->tls_fingerprint || !*want->tls_fingerprint || !strcasecmp(cli_tls_fingerprint(c), want->tls_fingerprint)) && want->passwd && !strcmp(want->passwd, p)
        && !(want->conn_class->max_links && want->conn_class->ref_count >= want->conn_class->max_links);
      snprintf(why, sizeof why, "OPER %s with password %s by %s@%s, TLS fingerprint \"%s\"; block user %s host %s address bits %d password %s fingerprint %s%s class %u of %u, block %u", nm, p, cli_username(c), cli_sockhost(c), cli_tls_fingerprint(c), want && want->username ? want->username : "any", want ? want->host : "none", want ? want->addrbits : 0, want && want->passwd ? want->passwd : "none", want && want->tls_fingerprint ? want->tls_fingerprint : "none", want && want->status & CONF_ILLEGAL ? " (disabled)" : "", want ? want->conn_class->ref_count : 0, want ? want->conn_class->max_links : 0, want ? want->clients : 0);
      wh_send(c, "OPER %s %s", nm, p);
      if (!ok) { if (!plain(c)) wl_witness("%s: became an operator", why); }
      else {
        int g = want_priv(want, want->conn_class, PRIV_PROPAGATE); char *o = wh_out(wr_S);
        if (cli_handler(c) != OPER_HANDLER || !!HasFlag(c, FLAG_OPER) != g || !!HasFlag(c, FLAG_LOCOP) == g) wl_witness("%s: should become a %s operator: handler %d, +o %d, +O %d", why, g ? "global" : "local", cli_handler(c), !!HasFlag(c, FLAG_OPER), !!HasFlag(c, FLAG_LOCOP));
        check_privs(c, want, want->conn_class, why);
        if ((strstr(o, " :+") && strchr(strstr(o, " :+"), 'o')) != g) wl_witness("%s: %s operator, the network was sent %s", why, g ? "global" : "local", wl_quote(o));
      }
      while ((l = cli_confs(c)) && l->value.aconf != &wh_conf) { cli_confs(c) = l->next; free_link(l); }
    } else if (k == 3) {
      struct Client *d = wr_u[wl_below(4)], *sv = wl_chance(2) ? wr_S : wr_S2; int lists = wl_below(3), plus, was = wl_chance(2); const char *m;
      while (cli_confs(wr_S) && cli_confs(wr_S)->value.aconf == &uw) { l = cli_confs(wr_S); cli_confs(wr_S) = l->next; free_link(l); }
      memset(&uw, 0, sizeof uw); uw.status = CONF_UWORLD; uw.host = wl_chance(2) ? "hub.test.net" : "leaf.*"; uw.flags = wl_chance(3) ? 0 : CONF_UWORLD_OPER;
      if (lists) { l = make_link(); l->value.aconf = &uw; l->next = cli_confs(wr_S); cli_confs(wr_S) = l; }
      if (sv == wr_S2 && cli_from(wr_S2) != wr_S) sv = wr_S;
      if (was) { SetFlag(d, FLAG_OPER); ++UserStats.opers; cli_handler(d) = OPER_HANDLER; memset(cli_privs(d), 255, 1); }
      plus = wl_chance(2); m = plus ? "+o" : "-o";
      n = lists && uw.flags && (uw.host[0] == 'h') == (sv == wr_S) && plus != was;
      snprintf(why, sizeof why, "OPMODE %s %s from %s, U-lined: %s%s, was %san operator", cli_name(d), m, cli_name(sv), lists ? uw.host : "none", uw.flags ? " with oper" : "", was ? "" : "not ");
      wh_send(wr_S, "%s OM %s%s %s", cli_yxx(sv), cli_yxx(&me), cli_yxx(d), m);
      if (!!HasFlag(d, FLAG_OPER) != (n ? plus : was)) wl_witness("%s: is %san operator after it", why, HasFlag(d, FLAG_OPER) ? "" : "not ");
      if (n && plus) { if (cli_handler(d) != OPER_HANDLER) wl_witness("%s: handler %d", why, cli_handler(d)); check_privs(d, 0, &dfl, why); }
      if (n && !plus && !plain(d)) wl_witness("%s: keeps privileges or handler", why);
    } else if (k == 4) {
      wh_send(c, "MODE %s %s", cli_name(c), wl_chance(2) ? "+o" : "+O");
      if (!plain(c)) wl_witness("MODE +o by %s himself made an operator", cli_name(c));
    } else {
      struct Client *d = wr_u[4 + wl_below(2)]; if (HasFlag(d, FLAG_OPER)) { ClrFlag(d, FLAG_OPER); --UserStats.opers; }
      wh_send(wr_S, "AC%s OPER x y", cli_yxx(d));
    }
    (void)f0;
  }
}
int main(int argc, char **argv) { return wh_run(argc, argv, sc, 250, 14); }
