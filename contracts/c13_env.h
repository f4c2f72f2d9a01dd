/* C13: operator commands: what they call, and the record of what they did */
#include "config.h"
#include "verif.h"
#include "channel.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_features.h"
#include "ircd_string.h"
#include "list.h"
#include "numnicks.h"
#include "send.h"
#include "struct.h"
#include "spec_client.h"
#define SPEC_PRIV(c, p) (((c)->cli_connect->con_privs.bits[(p) / 64] >> ((p) % 64)) & 1ul)
int uf_feature(int f);
int feature_bool(enum Feature feat)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_feature(feat) != 0))
  __CPROVER_assigns();
struct Client *uf_client(const char *name, int mask);
struct Client *uf_numuser(const char *yxx);
struct Client *uf_history(const char *name);
struct Client *uf_server(const char *mask);
struct Channel *uf_channel(const char *name);
struct Client *hSeekClient(const char *name, int TMask)
  __CPROVER_ensures(__CPROVER_return_value == uf_client(name, TMask))
  __CPROVER_assigns();
struct Client *findNUser(const char *yxx)
  __CPROVER_ensures(__CPROVER_return_value == uf_numuser(yxx))
  __CPROVER_ensures(!__CPROVER_return_value || spec_is_user(__CPROVER_return_value))
  __CPROVER_assigns();
struct Channel *hSeekChannel(const char *name)
  __CPROVER_ensures(__CPROVER_return_value == uf_channel(name))
  __CPROVER_assigns();
/* commands sent to one client and to the other servers */
int ghost_one_n, ghost_serv_n;
struct Client *ghost_one_from, *ghost_one_to, *ghost_serv_from, *ghost_serv_but;
char ghost_one_tok0, ghost_one_tok1, ghost_serv_tok0, ghost_serv_tok1;
const void *ghost_one_va0, *ghost_serv_va0;
#define REC_SERV ghost_serv_n, ghost_serv_from, ghost_serv_but, ghost_serv_tok0, ghost_serv_tok1, ghost_serv_va0
#define REC_ONE ghost_one_n, ghost_one_from, ghost_one_to, ghost_one_tok0, ghost_one_tok1, ghost_one_va0
void sendcmdto_serv_butone(struct Client *from, const char *cmd, const char *tok, struct Client *one, const char *pattern, ...)
  __CPROVER_ensures(ghost_serv_n == __CPROVER_old(ghost_serv_n) + 1 && ghost_serv_from == from && ghost_serv_but == one)
  __CPROVER_ensures(ghost_serv_tok0 == tok[0] && ghost_serv_tok1 == (tok[0] ? tok[1] : 0) && ghost_serv_va0 == verif_va_ptr(0))
  __CPROVER_assigns(REC_SERV);
/* notices are not commands: only the others are recorded */
#define NOTICE_TOK(t) ((t)[0] == 'O' && (t)[1] == 0)
void sendcmdto_one(struct Client *from, const char *cmd, const char *tok, struct Client *to, const char *pattern, ...)
  __CPROVER_ensures(NOTICE_TOK(tok) ? ghost_one_n == __CPROVER_old(ghost_one_n) : ghost_one_n == __CPROVER_old(ghost_one_n) + 1 && ghost_one_from == from && ghost_one_to == to)
  __CPROVER_ensures(NOTICE_TOK(tok) || (ghost_one_tok0 == tok[0] && ghost_one_tok1 == (tok[0] ? tok[1] : 0) && ghost_one_va0 == verif_va_ptr(0)))
  __CPROVER_ensures(!NOTICE_TOK(tok) || (ghost_one_from == __CPROVER_old(ghost_one_from) && ghost_one_to == __CPROVER_old(ghost_one_to) && ghost_one_tok0 == __CPROVER_old(ghost_one_tok0) && ghost_one_tok1 == __CPROVER_old(ghost_one_tok1) && ghost_one_va0 == __CPROVER_old(ghost_one_va0)))
  __CPROVER_assigns(REC_ONE);
#define OPER_HANDLER_REQ(c, s) ((c) == (s) && spec_my_user(s))
