/* C13: GLINE by an operator */
#include "c13_env.h"
#include "gline.h"
int ghost_gl;              /* 1 added, 2 changed, 3 destroyed */
unsigned int ghost_gl_flags;
int ghost_gl_action;
struct Gline *ghost_gl_ptr;
const char *ghost_gl_mask;
#define REC_GL ghost_gl, ghost_gl_flags, ghost_gl_action, ghost_gl_ptr, ghost_gl_mask
struct Gline *uf_gline(const char *mask, unsigned int flags);
struct Client *find_match_server(char *mask)
  __CPROVER_ensures(__CPROVER_return_value == uf_server(mask))
  __CPROVER_assigns();
struct Gline *gline_find(char *userhost, unsigned int flags)
  __CPROVER_ensures(__CPROVER_return_value == uf_gline(userhost, flags))
  __CPROVER_assigns();
int gline_add(struct Client *cptr, struct Client *sptr, char *userhost, char *reason, time_t expire, time_t lastmod, time_t lifetime, unsigned int flags)
  __CPROVER_ensures(ghost_gl == 1 && ghost_gl_flags == flags && ghost_gl_ptr == 0 && ghost_gl_mask == userhost)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_GL);
int gline_modify(struct Client *cptr, struct Client *sptr, struct Gline *gline, enum GlineAction action, char *reason, time_t expire, time_t lastmod, time_t lifetime, unsigned int flags)
  __CPROVER_ensures(ghost_gl == 2 && ghost_gl_flags == flags && ghost_gl_ptr == gline && ghost_gl_action == action)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_GL);
int gline_destroy(struct Client *cptr, struct Client *sptr, struct Gline *gline)
  __CPROVER_ensures(ghost_gl == 3 && ghost_gl_ptr == gline)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_GL);
static int spec_force(char *p) { return *p == '!'; }
static char spec_sign(char *p) { return *p == '!' ? p[1] : *p; }
static int spec_global_ok(struct Client *s) { return uf_feature(FEAT_CONFIG_OPERCMDS) && SPEC_PRIV(s, PRIV_GLINE); }
int mo_gline(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(OPER_HANDLER_REQ(cptr, sptr) && ghost_gl == 0 && ghost_one_n == 0 && me.cli_status == 0x004)
  /* a ban of this server's own: with the local privilege; anything wider: with the global one */
  __CPROVER_ensures(ghost_gl != 1 || verif_old_int((int)(SPEC_PRIV(sptr, PRIV_LOCAL_GLINE))) || !(ghost_gl_flags & GLINE_LOCAL))
  __CPROVER_ensures(ghost_gl != 1 || verif_old_int(spec_global_ok(sptr)) || (ghost_gl_flags & GLINE_LOCAL))
  __CPROVER_ensures(ghost_gl != 1 || !(ghost_gl_flags & GLINE_LOCAL) == !!(ghost_gl_flags & GLINE_GLOBAL))
  __CPROVER_ensures(ghost_gl != 2 || (ghost_gl_action == GLINE_LOCAL_ACTIVATE || ghost_gl_action == GLINE_LOCAL_DEACTIVATE ? verif_old_int((int)(SPEC_PRIV(sptr, PRIV_LOCAL_GLINE))) : verif_old_int(spec_global_ok(sptr))))
  __CPROVER_ensures(ghost_gl != 3 || verif_old_int((int)(SPEC_PRIV(sptr, PRIV_LOCAL_GLINE))))
  __CPROVER_ensures(ghost_gl == 0 || ghost_gl == 3 || !(ghost_gl_flags & GLINE_OPERFORCE) == !verif_old_int(spec_force(parv[1]) && SPEC_PRIV(sptr, PRIV_WIDE_GLINE)))
  __CPROVER_ensures(ghost_gl != 1 || !(ghost_gl_flags & GLINE_FORCE))
  /* a request to another server: with the global privilege */
  __CPROVER_ensures(ghost_one_n == 0 || (ghost_one_n == 1 && ghost_gl == 0 && verif_old_int(spec_global_ok(sptr)) && ghost_one_from == sptr && ghost_one_tok0 == 'G'))
  /* with the sign given */
  __CPROVER_ensures(ghost_gl != 2 || verif_old_int(spec_sign(parv[1])) != '>' || ghost_gl_action == GLINE_LOCAL_ACTIVATE)
  __CPROVER_ensures(ghost_gl != 2 || verif_old_int(spec_sign(parv[1])) != '<' || ghost_gl_action == GLINE_LOCAL_DEACTIVATE)
  __CPROVER_ensures(ghost_gl != 2 || verif_old_int(spec_sign(parv[1])) != '+' || ghost_gl_action == GLINE_ACTIVATE)
  __CPROVER_ensures(ghost_gl != 2 || verif_old_int(spec_sign(parv[1])) != '-' || ghost_gl_action == GLINE_DEACTIVATE)
  __CPROVER_ensures(ghost_gl != 1 || verif_old_int(spec_sign(parv[1])) != '-' || !(ghost_gl_flags & GLINE_ACTIVE))
  __CPROVER_ensures(ghost_gl != 3 || verif_old_int(spec_sign(parv[1])) == '-')
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(REC_GL, REC_ONE);
#include "ircd/m_gline.c"
