/* C31: what is sent to a client goes on the queue of his connection, once and unchanged (send.c). */
#include "config.h"
#include "verif.h"
#include "class.h"
#include "client.h"
#include "ircd.h"
#include "ircd_features.h"
#include "ircd_snprintf.h"
#include "msgq.h"
#include "msg_tag.h"
#include "s_bsd.h"
#include "send.h"
#include "struct.h"
#include "websocket.h"
#include "spec_client.h"
#include <string.h>
int uf_feature(int f);
int feature_bool(enum Feature feat)
  __CPROVER_ensures((__CPROVER_return_value != 0) == (uf_feature(feat) != 0))
  __CPROVER_assigns();
struct Client *ghost_to;            /* the connection's own client */
struct MsgBuf *ghost_body, *ghost_tagged, *ghost_framed;
int ghost_added, ghost_frames, ghost_tags, ghost_limit, ghost_dead;
unsigned ghost_k;
struct MsgBuf *msgq_raw_alloc(struct Client *dest, unsigned int minbytes)
  __CPROVER_ensures(__CPROVER_return_value == 0 || (__CPROVER_return_value != ghost_body && __CPROVER_return_value->length == 0))
  /* a buffer of its own */
  __CPROVER_ensures((unsigned long)__CPROVER_return_value >= (unsigned long)ghost_body + 100064 || (unsigned long)__CPROVER_return_value + minbytes + 64 <= (unsigned long)ghost_body)
  __CPROVER_assigns();
#ifdef WIRE
static struct MsgBuf *make_wire_msgbuf(struct Client *to, struct MsgBuf *body, const char *prefix, unsigned int prefix_len)
  __CPROVER_requires(body == ghost_body && prefix && body->length < 100000 && prefix_len < 100000)
  __CPROVER_ensures(__CPROVER_return_value == body || __CPROVER_return_value->length == prefix_len + body->length)
  __CPROVER_ensures(__CPROVER_return_value == body || ghost_k >= prefix_len || __CPROVER_return_value->msg[ghost_k] == (char)verif_old_int(prefix[ghost_k]))
  __CPROVER_ensures(__CPROVER_return_value == body || ghost_k >= body->length || __CPROVER_return_value->msg[prefix_len + ghost_k] == (char)verif_old_int(body->msg[ghost_k]))
  __CPROVER_assigns(verif_everything());
#else
static struct MsgBuf *make_wire_msgbuf(struct Client *to, struct MsgBuf *body, const char *prefix, unsigned int prefix_len)
  __CPROVER_requires(body == ghost_body && to == ghost_to)
  __CPROVER_ensures(__CPROVER_return_value == body || __CPROVER_return_value == ghost_tagged)
  __CPROVER_ensures(ghost_tags == 1)
  __CPROVER_assigns(ghost_tags);
#endif
struct MsgBuf *websocket_frame_msgbuf(struct Client *cptr, const char *line, size_t linelen)
  __CPROVER_requires(cptr == ghost_to && ((line == ghost_body->msg && linelen == ghost_body->length) || (ghost_tags && line == ghost_tagged->msg && linelen == ghost_tagged->length)))
  __CPROVER_ensures(__CPROVER_return_value == ghost_framed && ghost_frames == 1)
  __CPROVER_assigns(ghost_frames);
void msgq_add(struct MsgQ *mq, struct MsgBuf *mb, int prio)
  __CPROVER_requires(mq == &ghost_to->cli_connect->con_sendQ)
  __CPROVER_requires(ghost_to->cli_connect->ws_mode ? ghost_frames && mb == ghost_framed : mb == ghost_body || (ghost_tags && mb == ghost_tagged))
  __CPROVER_ensures(ghost_added == __CPROVER_old(ghost_added) + 1)
  __CPROVER_assigns(ghost_added);
unsigned int get_sendq(struct Client *cptr)
  __CPROVER_ensures(cptr != ghost_to || __CPROVER_return_value == (unsigned)ghost_limit)
  __CPROVER_assigns();
static void dead_link(struct Client *to, char *notice)
  __CPROVER_requires(to == ghost_to)
  __CPROVER_ensures(ghost_dead == 1)
  __CPROVER_assigns(ghost_dead);
void sendto_opmask_butone(struct Client *one, unsigned int mask, const char *pattern, ...)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
void send_queued(struct Client *to)
  __CPROVER_requires(to == ghost_to)
  __CPROVER_ensures(1)
  __CPROVER_assigns();
#define SENDABLE (!SPEC_FLAG(ghost_to, FLAG_DEADSOCKET) && !spec_is_me(ghost_to) && ghost_to->cli_connect->con_socket.s_fd != -1)
#define WITHIN (ghost_to->cli_connect->con_sendQ.length <= (unsigned)ghost_limit)
#define TOO (to->cli_connect->con_client == ghost_to && ghost_to && ghost_to->cli_connect == to->cli_connect)
void send_buffer(struct Client *to, struct Client *from, struct MsgBuf *buf, int prio, const struct MsgTagCtx *ctx, struct TagSendCache *cache)
  __CPROVER_requires(TOO && buf == ghost_body && ghost_body && ghost_tagged && !ghost_added && !ghost_frames && !ghost_tags && !ghost_dead)
  __CPROVER_ensures(ghost_added == verif_old_int(SENDABLE && WITHIN && (!ghost_to->cli_connect->ws_mode || ghost_framed)))
  __CPROVER_ensures(ghost_dead == verif_old_int(SENDABLE && (!WITHIN || (ghost_to->cli_connect->ws_mode && !ghost_framed))))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_added, ghost_frames, ghost_tags, ghost_dead);
void send_raw_buffer(struct Client *to, struct MsgBuf *mb, int prio)
  __CPROVER_requires(TOO && mb == ghost_body && ghost_to->cli_connect->ws_mode == 0 && !ghost_added && !ghost_dead)
  __CPROVER_ensures(ghost_added == verif_old_int(SENDABLE && WITHIN))
  __CPROVER_ensures(ghost_dead == verif_old_int(SENDABLE && !WITHIN))
  __CPROVER_assigns(verif_everything()) __CPROVER_assigns(ghost_added, ghost_dead);
#include "ircd/send.c"
