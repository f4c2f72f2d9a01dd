/* Specification vocabulary for clients: spelled out on the representation, so that it does not move
 * with the convenience macros of the code under verification. */
#ifndef SPEC_CLIENT_H
#define SPEC_CLIENT_H
#define SPEC_FLAG(c, f) (((c)->cli_flags.bits[(f) / 64] >> ((f) % 64)) & 1ul)
static int spec_is_user(const struct Client *c) { return c->cli_status == 0x080; }
static int spec_is_server(const struct Client *c) { return c->cli_status == 0x040; }
static int spec_is_me(const struct Client *c) { return c->cli_status == 0x004; }
static int spec_local(const struct Client *c) { return c->cli_connect->con_client == c; }
static int spec_my_user(const struct Client *c) { return spec_local(c) && spec_is_user(c); }
static int spec_globop(const struct Client *c) { return SPEC_FLAG(c, FLAG_OPER) != 0; }
static int spec_locop(const struct Client *c) { return spec_local(c) && SPEC_FLAG(c, FLAG_LOCOP) != 0; }
static int spec_anyop(const struct Client *c) { return spec_globop(c) || spec_locop(c); }
static int spec_service(const struct Client *c) { return SPEC_FLAG(c, FLAG_CHSERV) != 0; }
static int spec_account(const struct Client *c) { return SPEC_FLAG(c, FLAG_ACCOUNT) != 0; }
static int spec_tls(const struct Client *c) { return SPEC_FLAG(c, FLAG_TLS) != 0; }
#endif
