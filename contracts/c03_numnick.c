/* C03: numerics (numnicks.c): the codec, the table of servers and the tables of their users */
#include "config.h"
#include "verif.h"
#include "client.h"
#include "ircd.h"
#include "ircd_alloc.h"
#include "ircd_log.h"
#include "ircd_string.h"
#include "match.h"
#include "numnicks.h"
#include "s_misc.h"
#include "struct.h"
#include "spec_client.h"
/* the digits, as every server of the network must read and write them */
static unsigned spec_val(char ch)
{
  unsigned char c = (unsigned char)ch;
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  if (c == '[') return 62;
  if (c == ']') return 63;
  return 0;
}
static char spec_digit(unsigned v)
{
  v &= 63;
  if (v < 26) return (char)('A' + v);
  if (v < 52) return (char)('a' + (v - 26));
  if (v < 62) return (char)('0' + (v - 52));
  return v == 62 ? '[' : ']';
}
static unsigned rec_b64(unsigned acc, const char *p)
{
  if (!*p) return acc;
  return rec_b64((acc << 6) + spec_val(*p), p + 1);
}
static unsigned spec_dec(const char *s) { return rec_b64(0, s); }
static unsigned spec_dec2(const char *s) { return (spec_val(s[0]) << 6) + spec_val(s[1]); }
static unsigned spec_dec3(const char *s) { return (spec_val(s[0]) << 12) + (spec_val(s[1]) << 6) + spec_val(s[2]); }
static int spec_l3(const char *s) { return s[0] && s[1] && s[2] && !s[3]; }
static int spec_l5(const char *s) { return s[0] && s[1] && s[2] && s[3] && s[4] && !s[5]; }
static unsigned spec_strlen6(const char *s)
{
  if (!s[0]) return 0;
  if (!s[1]) return 1;
  if (!s[2]) return 2;
  if (!s[3]) return 3;
  if (!s[4]) return 4;
  if (!s[5]) return 5;
  return 6;
}
#ifdef EXACT_LENGTH
static int spec_strlen26(const char *s)
{
  int i;
  for (i = 0; i < 26; i++) if (!s[i]) return i;
  return 26;
}
unsigned long strlen(const char *s)
  __CPROVER_ensures(spec_strlen26(s) < 26 ? __CPROVER_return_value == (unsigned long)spec_strlen26(s) : __CPROVER_return_value >= 26 && __CPROVER_return_value < 65536)
  __CPROVER_assigns();
#else
unsigned long strlen(const char *s)
  __CPROVER_ensures(spec_strlen6(s) < 6 ? __CPROVER_return_value == spec_strlen6(s) : __CPROVER_return_value >= 6 && __CPROVER_return_value < 65536)
  __CPROVER_assigns();
#endif
unsigned int base64toint(const char *s)
  __CPROVER_ensures(__CPROVER_return_value == spec_dec(s))
  __CPROVER_assigns();
void verif_inv_base64toint(const char *s, unsigned i)
  __CPROVER_ensures(rec_b64(i, s) == rec_b64(0, __CPROVER_old(s)));
const char *inttobase64(char *buf, unsigned v, unsigned count)
  __CPROVER_requires(count >= 1 && count <= 6)
  __CPROVER_ensures(__CPROVER_return_value == buf && buf[count] == 0 && buf[count - 1] == spec_digit(v))
  __CPROVER_ensures(count < 2 || buf[count - 2] == spec_digit(v >> 6))
  __CPROVER_ensures(count < 3 || buf[count - 3] == spec_digit(v >> 12))
  __CPROVER_ensures(count < 4 || buf[count - 4] == spec_digit(v >> 18))
  __CPROVER_ensures(count < 5 || buf[count - 5] == spec_digit(v >> 24))
  __CPROVER_ensures(count < 6 || buf[count - 6] == spec_digit(v >> 30))
  __CPROVER_assigns(verif_text_upto(buf, count + 1));
#define DONE(j) (__CPROVER_old(count) < j + 1 || __CPROVER_old(count) - (j + 1) < count || buf[__CPROVER_old(count) - (j + 1)] == spec_digit(__CPROVER_old(v) >> (6 * j)))
void verif_inv_inttobase64(char *buf, unsigned v, unsigned count)
  __CPROVER_ensures(count <= __CPROVER_old(count) && v == (__CPROVER_old(count) - count > 5 ? 0 : __CPROVER_old(v) >> (6 * (__CPROVER_old(count) - count))) && buf[__CPROVER_old(count)] == 0)
  __CPROVER_ensures(DONE(0) && DONE(1) && DONE(2) && DONE(3) && DONE(4) && DONE(5));
/* reading what was written */
int lemma_codec(char *buf, unsigned v)
  __CPROVER_ensures(__CPROVER_return_value == 1)
  __CPROVER_assigns(verif_text_upto(buf, 7));
void verif_inv_capacity(unsigned max_clients, unsigned capacity)
  __CPROVER_ensures(max_clients >= 16 && max_clients <= 262144 && (max_clients & (max_clients - 1)) == 0);
#include "ircd/numnicks.c"
int lemma_codec(char *buf, unsigned v)
{
  int ok;
  inttobase64(buf, v, 2); ok = base64toint(buf) == (v & 4095);
  inttobase64(buf, v, 3); ok = ok && base64toint(buf) == (v & 262143);
  inttobase64(buf, v, 6); return ok && base64toint(buf) == v;
}
static struct Client *spec_nserver(const char *n)
{
  if (!*n) return (struct Client *)0;
  return server_list[spec_strlen6(n) == 1 || spec_strlen6(n) == 3 ? spec_val(n[0]) : spec_dec2(n)];
}
struct Client *FindNServer(const char *numeric)
  __CPROVER_ensures(__CPROVER_return_value == spec_nserver(numeric))
  __CPROVER_assigns();
static struct Client *FindXNServer(const char *numeric)
  __CPROVER_requires(numeric[0] && numeric[1])
  __CPROVER_ensures(__CPROVER_return_value == server_list[spec_dec2(numeric)])
  __CPROVER_assigns();
static struct Client **spec_slot(struct Client *server, unsigned n) { return &server->cli_serv->client_list[n & server->cli_serv->nn_mask]; }
struct Client *findNUser(const char *yxx)
  __CPROVER_ensures(!spec_l5(yxx) || __CPROVER_return_value == (server_list[spec_dec2(yxx)] == 0 ? (struct Client *)0 : *spec_slot(server_list[spec_dec2(yxx)], spec_dec3(yxx + 2))))
  __CPROVER_ensures(!spec_l3(yxx) || __CPROVER_return_value == (spec_nserver(yxx) == 0 ? (struct Client *)0 : *spec_slot(spec_nserver(yxx), spec_dec2(yxx + 1))))
  __CPROVER_ensures(spec_l5(yxx) || __CPROVER_return_value == (spec_nserver(yxx) == 0 ? (struct Client *)0 : *spec_slot(spec_nserver(yxx), spec_dec(yxx + 1))))
  __CPROVER_assigns();
/* the tables: an arbitrary place in one (ghost_j, ghost_i) stands for all others */
unsigned ghost_j, ghost_i;
#define TABLE(server) __CPROVER_assigns(__CPROVER_object_upto((server)->cli_serv->client_list, 8ul * ((server)->cli_serv->nn_mask + 1ul)))
#define MASK(server) ((server)->cli_serv->nn_mask)
#define OK_MASK(server) __CPROVER_requires(MASK(server) < 262144)
static int spec_same_place(struct Client *server, unsigned a, unsigned b) { return (a & MASK(server)) == (b & MASK(server)); }
static unsigned spec_num(const char *yxx) { return spec_l3(yxx) ? spec_dec3(yxx) : spec_dec2(yxx); }
void RemoveYXXClient(struct Client *server, const char *yxx)
  OK_MASK(server)
  __CPROVER_requires(!yxx[0] || spec_l3(yxx) || (yxx[1] && !yxx[2]))
  __CPROVER_ensures(!yxx[0] || *spec_slot(server, spec_num(yxx)) == 0)
  __CPROVER_ensures(*spec_slot(server, ghost_j) == verif_old_ptr(*spec_slot(server, ghost_j)) || (yxx[0] && spec_same_place(server, ghost_j, spec_num(yxx))))
  TABLE(server);
/* a new local user gets a numeric that was free, and keeps it */
int SetLocalNumNick(struct Client *cptr)
  OK_MASK(&me)
  __CPROVER_ensures(!__CPROVER_return_value || (spec_l3(cptr->cli_yxx) && *spec_slot(&me, spec_dec3(cptr->cli_yxx)) == cptr))
  __CPROVER_ensures(!__CPROVER_return_value || !spec_same_place(&me, ghost_j, spec_dec3(cptr->cli_yxx)) || verif_old_ptr(*spec_slot(&me, ghost_j)) == 0)
  __CPROVER_ensures(*spec_slot(&me, ghost_j) == verif_old_ptr(*spec_slot(&me, ghost_j)) || (__CPROVER_return_value && spec_same_place(&me, ghost_j, spec_dec3(cptr->cli_yxx))))
  TABLE(&me) __CPROVER_assigns(verif_text_upto(cptr->cli_yxx, 4));
/* a remote user takes the place his server says; who had it leaves first */
struct Client *ghost_was; int ghost_exits; struct Client **ghost_place;
int exit_client(struct Client *cptr, struct Client *bcptr, struct Client *sptr, const char *comment)
  __CPROVER_requires(ghost_was && bcptr == ghost_was && !ghost_exits)
  __CPROVER_ensures(ghost_exits == 1 && *ghost_place == 0)
  __CPROVER_assigns(ghost_exits, *ghost_place);
#ifdef EXACT_LENGTH
char *strcpy(char *d, const char *s)
  __CPROVER_requires(spec_strlen26(s) == 6)
  __CPROVER_ensures(d[0] == s[0] && d[1] == s[1] && d[2] == s[2] && d[3] == s[3] && d[4] == s[4] && d[5] == s[5] && !d[6])
  __CPROVER_assigns(verif_text_upto(d, 7));
#else
char *strcpy(char *d, const char *s)
  __CPROVER_requires(spec_l3(s))
  __CPROVER_ensures(d[0] == s[0] && d[1] == s[1] && d[2] == s[2] && !d[3])
  __CPROVER_assigns(verif_text_upto(d, 4));
#endif
static unsigned spec_own(struct Client *c) { return spec_num(c->cli_yxx); }
void SetRemoteNumNick(struct Client *acptr, const char *yxx)
  OK_MASK(acptr->cli_user->server)
  __CPROVER_requires((spec_l5(yxx) || spec_l3(yxx)) && !ghost_exits)
  __CPROVER_requires(ghost_was == *spec_slot(acptr->cli_user->server, spec_l5(yxx) ? spec_dec3(yxx + 2) : spec_dec2(yxx + 1)))
  __CPROVER_requires(ghost_place == spec_slot(acptr->cli_user->server, spec_l5(yxx) ? spec_dec3(yxx + 2) : spec_dec2(yxx + 1)))
  __CPROVER_requires(&acptr->cli_yxx[0] + 4 <= yxx || yxx + 6 <= &acptr->cli_yxx[0])
  __CPROVER_ensures(verif_old_int(spec_l5(yxx)) ? spec_l3(acptr->cli_yxx) && acptr->cli_yxx[0] == yxx[2] && acptr->cli_yxx[1] == yxx[3] && acptr->cli_yxx[2] == yxx[4]
                                                : acptr->cli_yxx[0] == yxx[1] && acptr->cli_yxx[1] == yxx[2] && !acptr->cli_yxx[2])
  __CPROVER_ensures(*spec_slot(acptr->cli_user->server, spec_own(acptr)) == acptr && (ghost_exits != 0) == (ghost_was != 0))
  __CPROVER_ensures(*spec_slot(acptr->cli_user->server, ghost_j) == verif_old_ptr(*spec_slot(acptr->cli_user->server, ghost_j)) || spec_same_place(acptr->cli_user->server, ghost_j, spec_own(acptr)))
  TABLE(acptr->cli_user->server) __CPROVER_assigns(verif_text_upto(acptr->cli_yxx, 4), ghost_exits);
/* servers */
static unsigned spec_server_index(const char *yxx) { return spec_l5(yxx) ? spec_dec2(yxx) : spec_val(yxx[0]); }
static int spec_over(const char *a, const char *b) { return a < b + 4 && b < a + 4; }
void SetYXXServerName(struct Client *c, unsigned int numeric)
  __CPROVER_requires(numeric < 4096)
  __CPROVER_ensures(spec_dec2(c->cli_yxx) == numeric && c->cli_yxx[0] && c->cli_yxx[1] && !c->cli_yxx[2] && server_list[numeric] == c)
  __CPROVER_ensures(lastNNServer > numeric && lastNNServer >= __CPROVER_old(lastNNServer))
  __CPROVER_ensures(ghost_i >= 4096 || ghost_i == numeric || server_list[ghost_i] == verif_old_ptr(server_list[ghost_i]))
  __CPROVER_assigns(verif_text_upto(c->cli_yxx, 4), __CPROVER_object_upto(server_list, sizeof(server_list)), lastNNServer);
void ClearServerYXX(const struct Client *server)
  __CPROVER_requires(server->cli_yxx[0] && (!server->cli_yxx[1] || !server->cli_yxx[2]))
  __CPROVER_ensures(ghost_i >= 4096 || server_list[ghost_i] == verif_old_ptr(server_list[ghost_i] == server && ghost_i == (server->cli_yxx[1] ? spec_dec2(server->cli_yxx) : spec_val(server->cli_yxx[0])) ? 0 : server_list[ghost_i]))
  __CPROVER_assigns(__CPROVER_object_upto(server_list, sizeof(server_list)));
char *ircd_strncpy(char *s1, const char *s2, size_t n)
  __CPROVER_requires(n <= 3 && s2[0] && (n < 2 || s2[1]) && (n < 3 || s2[2]))
  __CPROVER_ensures((n < 1 || s1[0] == s2[0]) && (n < 2 || s1[1] == s2[1]) && (n < 3 || s1[2] == s2[2]) && !s1[n])
  __CPROVER_assigns(verif_text_upto(s1, n + 1));
void *uf_fresh(int n);
void *DoMallocZero(size_t len, const char *type, const char *file, int line)
  __CPROVER_ensures((unsigned long)uf_fresh(0) < 1ul << 47 && ((char *)uf_fresh(0) + len <= (char *)server_list || (char *)uf_fresh(0) >= (char *)(server_list + 4096)))
  __CPROVER_ensures(__CPROVER_return_value == uf_fresh(0) && (((struct Client **)uf_fresh(0))[ghost_j & (len / sizeof(struct Client *) - 1)] == 0))
  __CPROVER_assigns();
void SetServerYXX(struct Client *cptr, struct Client *server, const char *yxx)
  __CPROVER_requires(spec_l5(yxx) || (spec_l3(yxx) && !server->cli_yxx[1] && !server->cli_serv->nn_capacity[2]))
  __CPROVER_requires(&server->cli_yxx[0] + 4 <= yxx || yxx + 6 <= &server->cli_yxx[0])
  __CPROVER_requires(&server->cli_serv->nn_capacity[0] + 4 <= yxx || yxx + 6 <= &server->cli_serv->nn_capacity[0])
  __CPROVER_requires(&server->cli_serv->nn_capacity[0] + 4 <= &server->cli_yxx[0] || &server->cli_yxx[0] + 4 <= &server->cli_serv->nn_capacity[0])
  __CPROVER_ensures(verif_old_int(spec_l5(yxx)) ? server->cli_yxx[0] == yxx[0] && server->cli_yxx[1] == yxx[1] && !server->cli_yxx[2] : server->cli_yxx[0] == yxx[0] && !server->cli_yxx[1])
  __CPROVER_ensures(MASK(server) == verif_old_ulong(spec_l5(yxx) ? spec_dec3(yxx + 2) : spec_dec2(yxx + 1)))
  __CPROVER_ensures(server_list[verif_old_ulong(spec_server_index(yxx))] == server && lastNNServer > verif_old_ulong(spec_server_index(yxx)) && lastNNServer >= __CPROVER_old(lastNNServer))
  __CPROVER_ensures(ghost_i >= 4096 || ghost_i == verif_old_ulong(spec_server_index(yxx)) || server_list[ghost_i] == verif_old_ptr(server_list[ghost_i]))
  __CPROVER_ensures(server->cli_serv->client_list == (struct Client **)uf_fresh(0) && *spec_slot(server, ghost_j) == 0)
  __CPROVER_assigns(verif_text_upto(server->cli_yxx, 4), verif_text_upto(server->cli_serv->nn_capacity, 4), server->cli_serv->nn_mask, server->cli_serv->client_list)
  __CPROVER_assigns(__CPROVER_object_upto(server_list, sizeof(server_list)), lastNNServer);
void SetYXXCapacity(struct Client *c, unsigned int capacity)
  __CPROVER_requires(capacity <= 262144 && c->cli_yxx[0] && c->cli_yxx[1] && !c->cli_yxx[2] && !spec_over(&c->cli_serv->nn_capacity[0], &c->cli_yxx[0]))
  __CPROVER_ensures(MASK(c) >= 15 && MASK(c) + 1 >= capacity && MASK(c) < 262144 && (MASK(c) & (MASK(c) + 1)) == 0)
  __CPROVER_ensures(spec_dec3(c->cli_serv->nn_capacity) == MASK(c) && spec_l3(c->cli_serv->nn_capacity) && server_list[spec_dec2(c->cli_yxx)] == c)
  __CPROVER_ensures(c->cli_serv->client_list == (struct Client **)uf_fresh(0) && *spec_slot(c, ghost_j) == 0)
  __CPROVER_assigns(verif_text_upto(c->cli_serv->nn_capacity, 4), c->cli_serv->nn_mask, c->cli_serv->client_list)
  __CPROVER_assigns(__CPROVER_object_upto(server_list, sizeof(server_list)));
