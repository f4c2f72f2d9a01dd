#include "config.h"
#include "verif.h"
#include "client.h"
struct Privs verif_dummy_privs;
#define PRIVS_INV(p) (!privs_defaults_set || (((((privs_global.bits[(p) / 64] >> ((p) % 64)) & 1ul) != 0) == spec_default(1, p)) && (((privs_local.bits[(p) / 64] >> ((p) % 64)) & 1ul) != 0) == spec_default(0, p)))
#include "ircd/client.c"
#include "c15_env.h"
struct ConnectionClass *find_remote_oper_class(void)
  __CPROVER_ensures(__CPROVER_return_value == uf_remote_class())
  __CPROVER_assigns();
