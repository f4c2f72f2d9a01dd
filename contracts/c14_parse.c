/* C14: which handler a line from a client runs, and for whom; C23: whom a line from a server speaks for (parse.c) */
#include "config.h"
#include "verif.h"
#include "client.h"
#include "hash.h"
#include "ircd.h"
#include "ircd_chattr.h"
#include "list.h"
#include "msg.h"
#include "numnicks.h"
#include "parse.h"
#include "s_numeric.h"
#include "send.h"
#include "struct.h"
#include "spec_client.h"
int ghost_ran;                       /* handlers run */
struct Message *ghost_msg;           /* the command last looked up */
int ghost_by_name;                   /* ... under its full name */
struct Client *ghost_cptr, *ghost_named;
int ghost_kind;                      /* how the source was named: 1 nick or server name, 2 server numeric, 3 user numeric */
int ghost_want_kind;
const char *ghost_line;              /* the line after its tags */
const char *ghost_text;              /* the name asked for */
char ghost_c0, ghost_c1, ghost_c2, ghost_c3, ghost_c4;                     /* the first characters of it */
struct Client *uf_client(const char *name, int mask);
static int spec_end(char c) { return c == 0 || c == ' '; }
/* numeric is the word the line begins with, up to five characters */
static int spec_prefix(const char *numeric)
{
  if (spec_end(ghost_c0)) return numeric[0] == 0;
  if (numeric[0] != ghost_c0) return 0;
  if (spec_end(ghost_c1)) return numeric[1] == 0;
  if (numeric[1] != ghost_c1) return 0;
  if (spec_end(ghost_c2)) return numeric[2] == 0;
  if (numeric[2] != ghost_c2) return 0;
  if (spec_end(ghost_c3)) return numeric[3] == 0;
  if (numeric[3] != ghost_c3) return 0;
  if (spec_end(ghost_c4)) return numeric[4] == 0;
  return numeric[4] == ghost_c4 && numeric[5] == 0;
}
struct Client *FindNServer(const char *numeric)
  __CPROVER_requires(spec_prefix(numeric))
  __CPROVER_ensures(ghost_named == __CPROVER_return_value && ghost_kind == 2)
  __CPROVER_assigns(ghost_named, ghost_kind);
struct Client *findNUser(const char *yxx)
  __CPROVER_requires(spec_prefix(yxx))
  __CPROVER_ensures(ghost_named == __CPROVER_return_value && ghost_kind == 3)
  __CPROVER_assigns(ghost_named, ghost_kind);
struct Client *hSeekClient(const char *name, int TMask)
  __CPROVER_requires(name == ghost_line + 1 && (TMask & 0x0c4) == 0x0c4)
  __CPROVER_ensures(ghost_named == __CPROVER_return_value && ghost_kind == 1)
  __CPROVER_assigns(ghost_named, ghost_kind);
struct MsgTag *msg_tag_parse(char *start, char *end)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
struct MsgTag *msg_tag_filter_client(struct MsgTag *tags)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
static char *parse_msg_tags(char *ch, char *bufend)
  __CPROVER_ensures(!__CPROVER_return_value || (ghost_line == __CPROVER_return_value && ghost_c0 == ghost_line[0] && ghost_c1 == ghost_line[1] && ghost_c2 == ghost_line[2] && ghost_c3 == ghost_line[3] && ghost_c4 == ghost_line[4]))
  __CPROVER_assigns(ghost_line, ghost_c0, ghost_c1, ghost_c2, ghost_c3, ghost_c4);
char *strchr(const char *s, int c)
  __CPROVER_ensures(!__CPROVER_return_value || *__CPROVER_return_value == (char)c)
  __CPROVER_assigns();
#include "ircd/parse.c"
/* the command a word stands for in a tree of names */
static struct Message *rec_command(const char *cmd, struct MessageTree *node)
{
  if (!node) return (struct Message *)0;
  if (!*cmd) return node->msg;
  if (!IsCommand(*cmd)) return (struct Message *)0;
  return rec_command(cmd + 1, node->pointers[*cmd & 31]);
}
#ifdef LOOKUP
struct Message *ghost_found;
static struct Message *msg_tree_parse(char *cmd, struct MessageTree *root)
  __CPROVER_requires(ghost_found == rec_command(cmd, root))
  __CPROVER_ensures(__CPROVER_return_value == ghost_found)
  __CPROVER_assigns();
void verif_inv_msg_tree_parse(char *cmd, struct MessageTree *mtree)
  __CPROVER_ensures(rec_command(cmd, mtree) == ghost_found);
#else
static struct Message *msg_tree_parse(char *cmd, struct MessageTree *root)
  __CPROVER_requires(root == &msg_tree || root == &tok_tree)
  __CPROVER_ensures(__CPROVER_return_value == rec_command(cmd, root) && ghost_msg == __CPROVER_return_value && ghost_by_name == (root == &msg_tree))
  __CPROVER_assigns(ghost_msg, ghost_by_name);
static int spec_short(void) { return ghost_c1 == ' ' || ghost_c2 == ' '; }
/* whom a line from a server speaks for: the one it names, who must be behind that link; the server itself when it names nobody */
static int spec_source(struct Client *link, struct Client *from)
{
  if (ghost_kind == 0) return from == link && (spec_end(ghost_c0) || (ghost_c0 == ':' && spec_end(ghost_c1)));
  if (ghost_kind == 1 && ghost_c0 != ':') return 0;
  if (ghost_kind == 2 && !(ghost_c0 != ':' && spec_short())) return 0;
  if (ghost_kind == 3 && (ghost_c0 == ':' || spec_short())) return 0;
  if (!ghost_named) return from == link;
  return from == ghost_named && from->cli_connect->con_client == link;
}
static int spec_args(struct Client *from, int parc, char *parv[])
{
  return parc >= 1 && parc <= 16 && parv == para && parv[parc] == 0;
}
int ghost_server;                    /* which of the two functions this is */
int run_handler(MessageHandler h, struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_ran == 0 && cptr == ghost_cptr && ghost_msg && h == ghost_msg->handlers[cptr->cli_connect->con_handler])
  __CPROVER_requires(!SPEC_FLAG(cptr, FLAG_DEADSOCKET))
  __CPROVER_requires(ghost_server ? spec_source(cptr, sptr) : sptr == cptr && ghost_by_name)
  __CPROVER_requires(spec_args(sptr, parc, parv) && parv[0] == (ghost_server && ghost_named && ghost_c0 == ':' ? ghost_line + 1 : sptr->cli_name))
  __CPROVER_ensures(ghost_ran == 1)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_ran);
int do_numeric(int numeric, int nnn, struct Client *cptr, struct Client *sptr, int parc, char *parv[])
  __CPROVER_requires(ghost_server && ghost_ran == 0 && cptr == ghost_cptr && !SPEC_FLAG(cptr, FLAG_DEADSOCKET) && spec_source(cptr, sptr) && spec_args(sptr, parc, parv))
  __CPROVER_ensures(ghost_ran == 1)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_ran);
#define PARSE_GHOSTS ghost_ran, ghost_msg, ghost_by_name, ghost_named, ghost_kind, ghost_line, ghost_c0, ghost_c1, ghost_c2, ghost_c3, ghost_c4
int parse_client(struct Client *cptr, char *buffer, char *bufend)
  __CPROVER_requires(ghost_ran == 0 && ghost_cptr == cptr && ghost_server == 0 && ghost_msg == 0 && ghost_named == 0 && ghost_kind == 0 && spec_local(cptr))
  __CPROVER_ensures(ghost_ran == (ghost_msg != 0))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(PARSE_GHOSTS);
void verif_inv_parse_client(int i, int paramcount)
  __CPROVER_ensures(i >= 0 && i <= 14 && (i <= 1 || i < paramcount) && paramcount <= 15 && para[0] == ghost_cptr->cli_name);
int parse_server(struct Client *cptr, char *buffer, char *bufend)
  __CPROVER_requires(ghost_ran == 0 && ghost_cptr == cptr && ghost_server == 1 && ghost_msg == 0 && ghost_named == 0 && ghost_kind == 0 && spec_local(cptr) && spec_is_server(cptr))
  __CPROVER_ensures(ghost_msg == 0 || ghost_ran == 1)
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(PARSE_GHOSTS);
void verif_inv_parse_server(int i, int paramcount, struct Client *from)
  __CPROVER_ensures(i >= 0 && i <= 14 && (i == 0 || i < paramcount) && paramcount <= 15 && para[0] == (ghost_named && ghost_c0 == ':' ? ghost_line + 1 : from->cli_name));
#endif
