From d6fa988fc413c1afccc3bdc2ef14eae8835287ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:07 +0000
Subject: [PATCH 01/41] verif: loop-invariant hook macro (guard
 VERIF_CONTRACTS)

---
 include/verif_hooks.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)
 create mode 100644 include/verif_hooks.h

diff --git a/include/verif_hooks.h b/include/verif_hooks.h
new file mode 100644
index 0000000..271c087
--- /dev/null
+++ b/include/verif_hooks.h
@@ -0,0 +1,19 @@
+/** @file verif_hooks.h
+ * @brief Annotations for the deductive verifier.
+ *
+ * VERIF_INV(name, args...) marks the loop it stands in: the loop
+ * invariant `name' over `args' is declared next to the contracts of
+ * the enclosing function and is evaluated at the loop head.  Without
+ * VERIF_CONTRACTS (that is, in every normal build) it expands to
+ * nothing.
+ */
+#ifndef INCLUDED_verif_hooks_h
+#define INCLUDED_verif_hooks_h
+
+#ifdef VERIF_CONTRACTS
+#define VERIF_INV(name, ...) verif_inv_##name(__VA_ARGS__)
+#else
+#define VERIF_INV(name, ...) ((void)0)
+#endif
+
+#endif /* INCLUDED_verif_hooks_h */
-- 
2.43.0


From 0aa6f78edc316a8e83d7f32159a71f7162e53a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:07 +0000
Subject: [PATCH 02/41] verif: invariant hooks in ircd_strcmp, ircd_strncmp and
 strhash

---
 ircd/hash.c        | 5 ++++-
 ircd/ircd_string.c | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ircd/hash.c b/ircd/hash.c
index 72f908c..82d4d63 100644
--- a/ircd/hash.c
+++ b/ircd/hash.c
@@ -38,6 +38,7 @@
 #include "send.h"
 #include "struct.h"
 #include "sys.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <limits.h>
@@ -98,8 +99,10 @@ typedef unsigned int HASHREGS;
 static HASHREGS strhash(const char *n)
 {
   HASHREGS hash = crc32hash[ToLower(*n++) & 255];
-  while (*n)
+  while (*n) {
+    VERIF_INV(strhash, n, hash);
     hash = (hash >> 8) ^ crc32hash[(hash ^ ToLower(*n++)) & 255];
+  }
   return hash % HASHSIZE;
 }
 
diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index cbcedc5..d344bbd 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -27,6 +27,7 @@
 #include "ircd_chattr.h"
 #include "ircd_log.h"
 #include "res.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <string.h>
@@ -181,6 +182,7 @@ int ircd_strcmp(const char *a, const char *b)
   const char* ra = a;
   const char* rb = b;
   while (ToLower(*ra) == ToLower(*rb)) {
+    VERIF_INV(strcmp, ra, rb, a, b);
     if (!*ra++)
       return 0;
     else
@@ -204,6 +206,7 @@ int ircd_strncmp(const char *a, const char *b, size_t n)
   if (!left--)
     return 0;
   while (ToLower(*ra) == ToLower(*rb)) {
+    VERIF_INV(strncmp, ra, rb, left, a, b, n);
     if (!*ra++ || !left--)
       return 0;
     else
-- 
2.43.0


From de1880979a12a71b64b3a864c4e53918aba3bfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:07 +0000
Subject: [PATCH 03/41] verif: invariant hook in find_ban

---
 ircd/channel.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/channel.c b/ircd/channel.c
index fb58324..b293080 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -53,6 +53,7 @@
 #include "sline.h"
 #include "struct.h"
 #include "sys.h"
+#include "verif_hooks.h"
 #include "whowas.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
@@ -470,6 +471,7 @@ struct Ban *find_ban(struct Client *cptr, struct Ban *banlist)
   /* Walk through ban list. */
   for (found = NULL; banlist; banlist = banlist->next) {
     int res;
+    VERIF_INV(find_ban, cptr, banlist, found);
     /* If we have found a positive ban already, only consider exceptions. */
     if (found && !(banlist->flags & BAN_EXCEPTION))
       continue;
-- 
2.43.0


From a1ddf095ca4e6dd59c0637f34d0447680f0865d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 04/41] verif: loop invariant hooks in find_member_link

---
 ircd/channel.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/channel.c b/ircd/channel.c
index b293080..b550a0f 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -253,6 +253,7 @@ struct Membership* find_member_link(struct Channel* chptr, const struct Client*
   if (IsChannelService(cptr)) {
     m = chptr->members;
     while (m) {
+      VERIF_INV(find_member_link_service, m, chptr, cptr);
       assert(m->channel == chptr);
       if (m->user == cptr)
         return m;
@@ -266,6 +267,7 @@ struct Membership* find_member_link(struct Channel* chptr, const struct Client*
   else {
    m = (cli_user(cptr))->channel;
    while (m) {
+     VERIF_INV(find_member_link_user, m, chptr, cptr);
      assert(m->user == cptr);
      if (m->channel == chptr)
        return m;
-- 
2.43.0


From c9cd3996ed082156cd0ed88df3156d34c2853535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:59 +0000
Subject: [PATCH 05/41] verif: loop invariant hooks in the relay text filters

---
 ircd/ircd_relay.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index 57f02b0..231d225 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -64,6 +64,7 @@
 #include "s_user.h"
 #include "send.h"
 #include "sline.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <stdio.h>
@@ -114,6 +115,7 @@ void relay_channel_message(struct Client* sptr, const char* name, const char* te
 
   if (chptr->mode.mode & MODE_NOCOLOR) {
     for (ch = text; *ch != '\0'; ++ch) {
+      VERIF_INV(relay_color, ch, text);
       if (*ch == 3 || *ch == 27) {
         send_reply(sptr, ERR_CANNOTSENDTOCHAN, chptr->chname);
         return;
@@ -123,6 +125,7 @@ void relay_channel_message(struct Client* sptr, const char* name, const char* te
 
   if ((chptr->mode.mode & MODE_NOCTCP) && ircd_strncmp(text, "\001ACTION ", 8)) {
     for (ch = text; *ch != '\0'; ++ch) {
+      VERIF_INV(relay_ctcp, ch, text);
       if (*ch == 1) {
         send_reply(sptr, ERR_CANNOTSENDTOCHAN, chptr->chname);
         return;
@@ -175,6 +178,7 @@ void relay_channel_notice(struct Client* sptr, const char* name, const char* tex
 
   if (chptr->mode.mode & MODE_NOCOLOR) {
     for (ch = text; *ch != '\0'; ++ch) {
+      VERIF_INV(relay_color, ch, text);
       if (*ch == 3 || *ch == 27) {
         send_reply(sptr, ERR_CANNOTSENDTOCHAN, chptr->chname);
         return;
@@ -184,6 +188,7 @@ void relay_channel_notice(struct Client* sptr, const char* name, const char* tex
 
   if ((chptr->mode.mode & MODE_NOCTCP) && ircd_strncmp(text, "\001ACTION ", 8)) {
     for (ch = text; *ch != '\0'; ++ch) {
+      VERIF_INV(relay_ctcp, ch, text);
       if (*ch == 1) {
         send_reply(sptr, ERR_CANNOTSENDTOCHAN, chptr->chname);
         return;
-- 
2.43.0


From f27858413f5d3beed3448a8732cc5e647f3562b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 06/41] fix: honour user mode +R for TAGMSG

relay_private_tagmsg, relay_directed_tagmsg and server_relay_private_tagmsg
let users without an account reach a +R user; PRIVMSG and NOTICE do not.
---
 ircd/ircd_relay.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index 231d225..8120d05 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -852,6 +852,9 @@ relay_private_tagmsg(struct Client *sptr, const char *name)
       is_silenced(sptr, acptr))
     return;
 
+  if (should_block_unauth_user(sptr, acptr))
+    return;
+
   if (sline_check_privmsg(sptr, acptr, "", MSG_PRIVATE))
     return;
 
@@ -904,6 +907,9 @@ relay_directed_tagmsg(struct Client *sptr, char *name, char *server)
     return;
   }
 
+  if (should_block_unauth_user(sptr, acptr))
+    return;
+
   if (sline_check_privmsg(sptr, acptr, "", MSG_PRIVATE))
     return;
 
@@ -979,6 +985,9 @@ server_relay_private_tagmsg(struct Client *sptr, const char *name)
   if (0 == (acptr = findNUser(name)) || !IsUser(acptr))
     return;
 
+  if (should_block_unauth_user(sptr, acptr))
+    return;
+
   if (is_silenced(sptr, acptr))
     return;
 
-- 
2.43.0


From d3db02b4ac79e3a1a57c9d259ede44893f8f4290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 07/41] verif: loop invariant hooks in whisper

---
 ircd/s_user.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ircd/s_user.c b/ircd/s_user.c
index 2bdce11..c908291 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -62,6 +62,7 @@
 #include "sys.h"
 #include "userload.h"
 #include "version.h"
+#include "verif_hooks.h"
 #include "whowas.h"
 
 #include "handlers.h" /* m_motd and m_lusers */
@@ -783,6 +784,7 @@ int whisper(struct Client* source, const char* nick, const char* channel,
    * with a lot of users
    */
   for (membership = cli_user(source)->channel; membership; membership = membership->next_channel) {
+    VERIF_INV(whisper_from, membership, source, chptr);
     if (chptr == membership->channel)
       break;
   }
@@ -797,6 +799,7 @@ int whisper(struct Client* source, const char* nick, const char* channel,
    */
   assert(0 != cli_user(dest));
   for (membership = cli_user(dest)->channel; membership; membership = membership->next_channel) {
+    VERIF_INV(whisper_to, membership, dest, chptr);
     if (chptr == membership->channel)
       break;
   }
-- 
2.43.0


From 982865a14938d079bc292d1f10f6cfaf597aad75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 08/41] verif: loop invariant hooks in has_common_channel

---
 ircd/ircd_relay.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index 8120d05..134c7f8 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -445,9 +445,11 @@ static int has_common_channel(struct Client *sptr, struct Client *acptr)
   struct Membership *schan, *achan;
 
   for (schan = cli_user(sptr)->channel; schan; schan = schan->next_channel) {
+    VERIF_INV(common_outer, schan, sptr, acptr);
     if (IsZombie(schan) || IsDelayedJoin(schan))
       continue;
     for (achan = cli_user(acptr)->channel; achan; achan = achan->next_channel) {
+      VERIF_INV(common_inner, achan, schan, sptr, acptr);
       if (IsZombie(achan))
         continue;
       if (schan->channel == achan->channel)
-- 
2.43.0


From 6f7a6fef8d034d3f03db7aa8f78baee40d54f5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:24 +0000
Subject: [PATCH 09/41] verif: loop invariant hooks in make_zombie,
 channel_all_zombies

---
 ircd/channel.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/channel.c b/ircd/channel.c
index b550a0f..9171c9a 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -634,6 +634,7 @@ static int channel_all_zombies(struct Channel* chptr)
   struct Membership* member;
 
   for (member = chptr->members; member; member = member->next_member) {
+    VERIF_INV(channel_all_zombies, member, chptr);
     if (!IsZombie(member))
       return 0;
   }
@@ -1533,11 +1534,14 @@ void make_zombie(struct Membership* member, struct Client* who,
   {
     struct Client *acptr = IsServer(sptr) ? sptr : (cli_user(sptr))->server;
     for (; acptr != &me; acptr = (cli_serv(acptr))->up)
+    {
+      VERIF_INV(make_zombie, acptr, sptr, who);
       if (acptr == (cli_user(who))->server)   /* Case d) (server 5) */
       {
         remove_user_from_channel(who, chptr);
         return;
       }
+    }
   }
 
   /* Case a) (servers 1, 2, 3 and 6) */
-- 
2.43.0


From 1be3ee4692caf38b594e02c5ebe727e2053cc86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 10/41] verif: loop invariant hooks in m_topic.c

---
 ircd/m_topic.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ircd/m_topic.c b/ircd/m_topic.c
index 045047c..6fc1840 100644
--- a/ircd/m_topic.c
+++ b/ircd/m_topic.c
@@ -37,6 +37,7 @@
 #include "numeric.h"
 #include "numnicks.h"
 #include "send.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <stdlib.h> /* for atoi() */
@@ -122,6 +123,7 @@ int m_topic(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 
   for (; (name = ircd_strtok(&p, parv[1], ",")); parv[1] = 0)
   {
+    VERIF_INV(m_topic, p);
     chptr = 0;
     /* Does the channel exist */
     if (!IsChannelName(name) || !(chptr = FindChannel(name)))
@@ -184,6 +186,7 @@ int ms_topic(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
 
   for (; (name = ircd_strtok(&p, parv[1], ",")); parv[1] = 0)
   {
+    VERIF_INV(ms_topic, parc, parv);
     chptr = 0;
     /* Does the channel exist */
     if (!IsChannelName(name) || !(chptr = FindChannel(name)))
-- 
2.43.0


From 21c7de5dd60c6564385451fccd1929f49583124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:32 +0000
Subject: [PATCH 11/41] verif: loop invariant hooks in m_join.c and IsInvited

---
 ircd/channel.c | 4 +++-
 ircd/m_join.c  | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index 9171c9a..f960f45 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3794,9 +3794,11 @@ int IsInvited(struct Client* cptr, const void* chptr)
 {
   struct SLink *lp;
 
-  for (lp = (cli_user(cptr))->invited; lp; lp = lp->next)
+  for (lp = (cli_user(cptr))->invited; lp; lp = lp->next) {
+    VERIF_INV(is_invited, lp, cptr, chptr);
     if (lp->value.chptr == chptr)
       return 1;
+  }
   return 0;
 }
 
diff --git a/ircd/m_join.c b/ircd/m_join.c
index 7a925e6..b0a9493 100644
--- a/ircd/m_join.c
+++ b/ircd/m_join.c
@@ -42,6 +42,7 @@
 #include "s_user.h"
 #include "send.h"
 #include "sys.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <stdlib.h>
@@ -145,6 +146,8 @@ int m_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
        name = ircd_strtok(&p, 0, ",")) {
     char *key = 0;
 
+    VERIF_INV(m_join, keys, &join, &create, sptr);
+
     /* If we have any more keys, take the first for this channel. */
     if (!BadPtr(keys)
         && (keys = strchr(key = keys, ',')))
-- 
2.43.0


From 913400f41599c22da0b3ff5ef9d32cf17d840c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:50 +0000
Subject: [PATCH 12/41] verif: loop invariant hooks in m_join.c

---
 ircd/m_join.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/m_join.c b/ircd/m_join.c
index b0a9493..a095c4c 100644
--- a/ircd/m_join.c
+++ b/ircd/m_join.c
@@ -84,11 +84,13 @@ last0(struct Client *cptr, struct Client *sptr, char *chanlist)
 
     joinbuf_join(&part, 0, 0);
 
-    while ((member = cli_user(sptr)->channel))
+    while ((member = cli_user(sptr)->channel)) {
+      VERIF_INV(last0, &part, sptr);
       joinbuf_join(&part, member->channel,
                    IsZombie(member) ? CHFL_ZOMBIE :
                    IsDelayedJoin(member) ? CHFL_DELAYED :
                    0);
+    }
 
     joinbuf_flush(&part);
   }
@@ -146,7 +148,7 @@ int m_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
        name = ircd_strtok(&p, 0, ",")) {
     char *key = 0;
 
-    VERIF_INV(m_join, keys, &join, &create, sptr);
+    VERIF_INV(m_join, name, keys, &join, &create, sptr);
 
     /* If we have any more keys, take the first for this channel. */
     if (!BadPtr(keys)
-- 
2.43.0


From cd4e7a5ed6f8d26a9a0a7d4edfa8589b1e005d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:42 +0000
Subject: [PATCH 13/41] verif: loop invariant hooks in the MODE parser

---
 ircd/channel.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index f960f45..5e88ee6 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -2494,6 +2494,7 @@ is_clean_key(struct ParseState *state, char *s, char *command)
     return 0;
   }
   for (ii = 0; (ii <= KEYLEN) && (s[ii] != '\0'); ++ii) {
+    VERIF_INV(is_clean_key, ii, s);
     if ((unsigned char)s[ii] <= ' ' || s[ii] == ',') {
       if (MyUser(state->sptr))
         send_reply(state->sptr, ERR_INVALIDKEY, state->chptr->chname);
@@ -3005,8 +3006,10 @@ mode_parse_ban(struct ParseState *state, int *flag_p)
 
   /* Clear all ADD/DEL/OVERLAPPED flags from ban list. */
   if (!(state->done & DONE_BANCLEAN)) {
-    for (ban = state->chptr->banlist; ban; ban = ban->next)
+    for (ban = state->chptr->banlist; ban; ban = ban->next) {
+      VERIF_INV(mode_parse_ban, state);
       ban->flags &= ~(BAN_ADD | BAN_DEL | BAN_OVERLAPPED);
+    }
     state->done |= DONE_BANCLEAN;
   }
 
@@ -3034,6 +3037,7 @@ mode_process_bans(struct ParseState *state)
   int changed = 0;
 
   for (prevban = 0, ban = state->chptr->banlist; ban; ban = nextban) {
+    VERIF_INV(mode_process_bans, state);
     count++;
     banlen = strlen(ban->banstr);
     len += banlen;
@@ -3182,10 +3186,12 @@ mode_parse_client(struct ParseState *state, int *flag_p)
   if (!acptr)
     return; /* find_chasing() already reported an error to the user */
 
-  for (i = 0; i < MAXPARA; i++) /* find an element to stick them in */
+  for (i = 0; i < MAXPARA; i++) { /* find an element to stick them in */
+    VERIF_INV(mode_parse_client, i, state, acptr, flag_p);
     if (!state->cli_change[i].flag || (state->cli_change[i].client == acptr &&
 				       state->cli_change[i].flag & flag_p[0]))
       break; /* found a slot */
+  }
 
   /* The check on max_args should prevent this for local clients. */
   if (i >= MAXPARA)
@@ -3214,6 +3220,7 @@ mode_process_clients(struct ParseState *state)
   struct Membership *member;
 
   for (i = 0; state->cli_change[i].flag; i++) {
+    VERIF_INV(mode_process_clients, i, state);
     assert(0 != state->cli_change[i].client);
 
     /* look up member link */
@@ -3452,10 +3459,14 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
   state.parc--;
 
   while (*modestr) {
+    VERIF_INV(mode_parse_words, &state, modestr);
     for (; *modestr; modestr++) {
-      for (flag_p = chan_flags; flag_p[0]; flag_p += 2) /* look up flag */
+      VERIF_INV(mode_parse_letters, &state, modestr);
+      for (flag_p = chan_flags; flag_p[0]; flag_p += 2) { /* look up flag */
+	VERIF_INV(mode_parse_lookup, flag_p);
 	if (flag_p[1] == *modestr)
 	  break;
+      }
 
       if (!flag_p[0]) { /* didn't find it?  complain and continue */
 	if (MyUser(state.sptr))
-- 
2.43.0


From 426637a4ab9b7a455ee348a9aebd684983312197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:22 +0000
Subject: [PATCH 14/41] fix: do not leave unprocessed bans on a channel's list

When a MODE carries a newer timestamp than ours and its server is still
bursting, mode_parse() ignores the change and returns at once.  Bans
parsed before the timestamp live in mode_parse()'s stack frame and were
left linked into the channel's ban list.
---
 ircd/channel.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ircd/channel.c b/ircd/channel.c
index 5e88ee6..dcbc108 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3122,6 +3122,26 @@ mode_process_bans(struct ParseState *state)
     mode_ban_invalidate(state->chptr);
 }
 
+/** Take the bans that a mode change was about to add off the channel's
+ * ban list again, because the change is not going to be processed.
+ * They live in \a state, so they must not outlive it on the list.
+ *
+ * @param[in] state Parse state for the mode change.
+ */
+static void
+mode_drop_bans(struct ParseState *state)
+{
+  struct Ban **ban_p;
+
+  /* New bans are always behind the channel's own bans. */
+  for (ban_p = &state->chptr->banlist; *ban_p; ban_p = &(*ban_p)->next) {
+    if ((*ban_p)->flags & BAN_ADD) {
+      *ban_p = NULL;
+      break;
+    }
+  }
+}
+
 /*
  * Helper function to process client changes
  */
@@ -3547,6 +3567,8 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
              * bounce that could desync modes from our side (that
              * have already been sent).
              */
+            if (state.done & DONE_BANCLEAN)
+              mode_drop_bans(&state);
             state.mbuf->mb_add = 0;
             state.mbuf->mb_rem = 0;
             state.mbuf->mb_count = 0;
-- 
2.43.0


From 2e5de2dd584f582c93571c55af624501fc2953b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 15/41] verif: loop annotations of the MODE parser

---
 ircd/channel.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index dcbc108..c1fd185 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3037,7 +3037,7 @@ mode_process_bans(struct ParseState *state)
   int changed = 0;
 
   for (prevban = 0, ban = state->chptr->banlist; ban; ban = nextban) {
-    VERIF_INV(mode_process_bans, state);
+    VERIF_INV(mode_process_bans, state, changed);
     count++;
     banlen = strlen(ban->banstr);
     len += banlen;
@@ -3483,7 +3483,6 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
     for (; *modestr; modestr++) {
       VERIF_INV(mode_parse_letters, &state, modestr);
       for (flag_p = chan_flags; flag_p[0]; flag_p += 2) { /* look up flag */
-	VERIF_INV(mode_parse_lookup, flag_p);
 	if (flag_p[1] == *modestr)
 	  break;
       }
-- 
2.43.0


From dd994c387e85d7311aa1254d53f6e651453b9aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:25 +0000
Subject: [PATCH 16/41] fix: require the local_jupe privilege for a JUPE
 without target

---
 ircd/m_jupe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/m_jupe.c b/ircd/m_jupe.c
index 51f219f..da83b84 100644
--- a/ircd/m_jupe.c
+++ b/ircd/m_jupe.c
@@ -239,7 +239,8 @@ int mo_jupe(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
       flags |= JUPE_LOCAL;
     } else if (!HasPriv(sptr, PRIV_JUPE))
       return send_reply(sptr, ERR_NOPRIVILEGES);
-  }
+  } else if (!HasPriv(sptr, PRIV_LOCAL_JUPE))
+    return send_reply(sptr, ERR_NOPRIVILEGES);
 
   ajupe = jupe_find(server);
 
-- 
2.43.0


From 293f5bdbdd39d9c28635dd1f188d2de9763410e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:04 +0000
Subject: [PATCH 17/41] verif: loop marks in the line parsers

---
 ircd/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/parse.c b/ircd/parse.c
index 8fd4472..3357397 100644
--- a/ircd/parse.c
+++ b/ircd/parse.c
@@ -52,6 +52,7 @@
 #include "msg_tag.h"
 #include "send.h"
 #include "struct.h"
+#include "verif_hooks.h"
 #include "sys.h"
 #include "whocmds.h"
 #include "whowas.h"
@@ -816,6 +817,7 @@ msg_tree_parse(char *cmd, struct MessageTree *root)
   struct MessageTree *mtree;
 
   for (mtree = root; mtree; mtree = mtree->pointers[(*cmd++) & (MAXPTRLEN-1)]) {
+      VERIF_INV(msg_tree_parse, cmd, mtree);
       if (*cmd == '\0')
           return mtree->msg;
       if (!IsCommand(*cmd))
@@ -1011,6 +1013,7 @@ parse_client(struct Client *cptr, char *buffer, char *bufend)
       paramcount = MAXPARA;
     for (;;)
     {
+      VERIF_INV(parse_client, i, paramcount);
       /*
        * Never "FRANCE " again!! ;-) Clean
        * out *all* blanks.. --msa
@@ -1321,6 +1324,7 @@ int parse_server(struct Client *cptr, char *buffer, char *bufend)
       paramcount = MAXPARA;
     for (;;)
     {
+      VERIF_INV(parse_server, i, paramcount, from);
       /*
        * Never "FRANCE " again!! ;-) Clean
        * out *all* blanks.. --msa
-- 
2.43.0


From 51323f89d6bd7e6c10b1c42d029cc270d5f84e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 18/41] verif: loop marks in find_conf_exact, is_attached,
 set_user_mode

---
 ircd/s_conf.c | 3 +++
 ircd/s_user.c | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index e30651e..e6b55ca 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -58,6 +58,7 @@
 #include "send.h"
 #include "struct.h"
 #include "sys.h"
+#include "verif_hooks.h"
 #include "ircd_parser.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
@@ -651,6 +652,7 @@ static int is_attached(struct ConfItem *aconf, struct Client *cptr)
   struct SLink *lp;
 
   for (lp = cli_confs(cptr); lp; lp = lp->next) {
+    VERIF_INV(is_attached, lp, aconf);
     if (lp->value.aconf == aconf)
       return 1;
   }
@@ -775,6 +777,7 @@ struct ConfItem* find_conf_exact(const char* name, struct Client *cptr, int stat
   struct ConfItem *tmp;
 
   for (tmp = GlobalConfList; tmp; tmp = tmp->next) {
+    VERIF_INV(find_conf_exact, tmp, name, cptr, statmask);
     if (!(tmp->status & statmask) || !tmp->name || !tmp->host ||
         0 != ircd_strcmp(tmp->name, name))
       continue;
diff --git a/ircd/s_user.c b/ircd/s_user.c
index c908291..7b34f35 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -1041,7 +1041,9 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
    * parse mode change string(s)
    */
   for (p = &parv[2]; *p && p<&parv[parc]; p++) {       /* p is changed in loop too */
+    VERIF_INV(set_user_mode, sptr, &setflags);
     for (m = *p; *m; m++) {
+      VERIF_INV(set_user_mode, sptr, &setflags);
       switch (*m) {
       case '+':
         what = MODE_ADD;
-- 
2.43.0


From 65e0cb7aac8325f8e676b51f68eb7bb557a4dd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 19/41] fix: DEFAULT_LIST_PARAM with S or M crashed the server

param_parse() is called without a client for the configured default; the
operator check of the S and M parameters then dereferenced a null pointer.
Nobody is entitled there, so report a usage error.
---
 ircd/m_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/m_list.c b/ircd/m_list.c
index b43ab15..66e70c1 100644
--- a/ircd/m_list.c
+++ b/ircd/m_list.c
@@ -255,7 +255,7 @@ param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
 
     case 'S':
     case 's':
-      if (!IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
+      if (!sptr || !IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
         return show_usage(sptr);
 
       args->flags |= LISTARG_SHOWSECRET;
@@ -267,7 +267,7 @@ param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
 
     case 'M':
     case 'm':
-      if (!IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
+      if (!sptr || !IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
         return show_usage(sptr);
 
       args->flags |= LISTARG_SHOWMODES;
-- 
2.43.0


From 2576f0b3a71f5d11078648ad9ca9f8daca74bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 20/41] verif: marks in WHO, WHOIS, NAMES and LIST

---
 include/verif_hooks.h | 5 ++++-
 ircd/m_list.c         | 3 +++
 ircd/m_names.c        | 2 ++
 ircd/m_who.c          | 6 +++++-
 ircd/m_whois.c        | 2 ++
 ircd/whocmds.c        | 2 ++
 6 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/verif_hooks.h b/include/verif_hooks.h
index 271c087..0ab102c 100644
--- a/include/verif_hooks.h
+++ b/include/verif_hooks.h
@@ -5,15 +5,18 @@
  * invariant `name' over `args' is declared next to the contracts of
  * the enclosing function and is evaluated at the loop head.  Without
  * VERIF_CONTRACTS (that is, in every normal build) it expands to
- * nothing.
+ * nothing.  VERIF_AT(name, args...) marks a place in the same way: what
+ * the contract `name' requires of `args' has to hold there.
  */
 #ifndef INCLUDED_verif_hooks_h
 #define INCLUDED_verif_hooks_h
 
 #ifdef VERIF_CONTRACTS
 #define VERIF_INV(name, ...) verif_inv_##name(__VA_ARGS__)
+#define VERIF_AT(name, ...) verif_at_##name(__VA_ARGS__)
 #else
 #define VERIF_INV(name, ...) ((void)0)
+#define VERIF_AT(name, ...) ((void)0)
 #endif
 
 #endif /* INCLUDED_verif_hooks_h */
diff --git a/ircd/m_list.c b/ircd/m_list.c
index 66e70c1..28428dc 100644
--- a/ircd/m_list.c
+++ b/ircd/m_list.c
@@ -96,6 +96,7 @@
 #include "numnicks.h"
 #include "s_bsd.h"
 #include "send.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <stdlib.h>
@@ -196,6 +197,7 @@ param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
     return LPARAM_SUCCESS;
 
   while (1) {
+    VERIF_INV(param_parse, sptr, args);
     switch (*param) {
     case 'T':
     case 't':
@@ -374,6 +376,7 @@ int m_list(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     args = la_init; /* initialize argument to blank slate */
 
     for (param = 1; parv[param]; param++) { /* process each parameter */
+      VERIF_INV(m_list, sptr, &args);
       switch (param_parse(sptr, parv[param], &args, parc == 2)) {
       case LPARAM_ERROR: /* error encountered, usage already sent, return */
 	return 0;
diff --git a/ircd/m_names.c b/ircd/m_names.c
index cd1cf64..395eea3 100644
--- a/ircd/m_names.c
+++ b/ircd/m_names.c
@@ -93,6 +93,7 @@
 #include "numnicks.h"
 #include "s_user.h"
 #include "send.h"
+#include "verif_hooks.h"
  
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <string.h>
@@ -173,6 +174,7 @@ void do_names(struct Client* sptr, struct Channel* chptr, int filter)
       buf[idx++] = '@';
     else if (HasVoice(member))
       buf[idx++] = '+';
+    VERIF_AT(do_names, member, sptr, filter);
     strcpy(buf + idx, cli_name(c2ptr));
     idx += strlen(cli_name(c2ptr));
 
diff --git a/ircd/m_who.c b/ircd/m_who.c
index 49565d0..ed9a173 100644
--- a/ircd/m_who.c
+++ b/ircd/m_who.c
@@ -94,6 +94,7 @@
 #include "numeric.h"
 #include "numnicks.h"
 #include "send.h"
+#include "verif_hooks.h"
 #include "whocmds.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
@@ -171,7 +172,8 @@ int m_who(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   if (parc > 2 && parv[2] && *parv[2])
   {
     p = parv[2];
-    while (((ch = *(p++))) && (ch != '%') && (ch != ','))
+    while (((ch = *(p++))) && (ch != '%') && (ch != ',')) {
+      VERIF_INV(m_who, bitsel, sptr);
       switch (ch)
       {
         case 'd':
@@ -219,6 +221,7 @@ int m_who(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
           matchsel |= WHO_FIELD_ACC;
           continue;
       }
+    }
     if (ch == '%')
       while ((ch = *p++) && (ch != ','))
       {
@@ -391,6 +394,7 @@ int m_who(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
       struct Membership* member;
       struct Membership* chan;
       for (chan = cli_user(sptr)->channel; chan; chan = chan->next_channel) {
+        VERIF_INV(m_who_chan, chan, sptr);
         chptr = chan->channel;
         for (member = chptr->members; member; member = member->next_member)
         {
diff --git a/ircd/m_whois.c b/ircd/m_whois.c
index 8869f70..8342d86 100644
--- a/ircd/m_whois.c
+++ b/ircd/m_whois.c
@@ -97,6 +97,7 @@
 #include "s_serv.h"
 #include "s_user.h"
 #include "send.h"
+#include "verif_hooks.h"
 #include "whocmds.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
@@ -190,6 +191,7 @@ static void do_whois(struct Client* sptr, struct Client *acptr, int parc)
          *(buf + len++) = '!';
        if (len)
           *(buf + len) = '\0';
+       VERIF_AT(do_whois, chan, acptr, sptr);
        strcpy(buf + len, chptr->chname);
        len += strlen(chptr->chname);
        strcat(buf + len, " ");
diff --git a/ircd/whocmds.c b/ircd/whocmds.c
index 2b87ca6..94fa7d9 100644
--- a/ircd/whocmds.c
+++ b/ircd/whocmds.c
@@ -26,6 +26,7 @@
  */
 #include "config.h"
 
+#include "verif_hooks.h"
 #include "whocmds.h"
 #include "channel.h"
 #include "client.h"
@@ -114,6 +115,7 @@ void do_who(struct Client* sptr, struct Client* acptr, struct Channel* repchan,
   {
     char *p2;
     *(p1++) = ' ';
+    VERIF_AT(do_who, chan, acptr, sptr);
     if ((p2 = (chan ? chan->channel->chname : NULL)))
       while ((*p2) && (*(p1++) = *(p2++)));
     else
-- 
2.43.0


From 9a73df361e650dada75e13498b3be2dca73a99f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:12 +0000
Subject: [PATCH 21/41] verif: marks in the name index

---
 ircd/hash.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/hash.c b/ircd/hash.c
index 82d4d63..8e1a33f 100644
--- a/ircd/hash.c
+++ b/ircd/hash.c
@@ -160,6 +160,7 @@ int hRemClient(struct Client *cptr)
   }
 
   while (tmp) {
+    VERIF_INV(hRemClient, cptr, tmp, hashv);
     if (cli_hnext(tmp) == cptr) {
       cli_hnext(tmp) = cli_hnext(cli_hnext(tmp));
       cli_hnext(cptr) = cptr;
@@ -203,6 +204,7 @@ int hRemChannel(struct Channel *chptr)
   }
 
   while (tmp) {
+    VERIF_INV(hRemChannel, chptr, tmp, hashv);
     if (tmp->hnext == chptr) {
       tmp->hnext = tmp->hnext->hnext;
       chptr->hnext = chptr;
@@ -229,6 +231,7 @@ struct Client* hSeekClient(const char *name, int TMask)
     if (0 == (cli_status(cptr) & TMask) || 0 != ircd_strcmp(name, cli_name(cptr))) {
       struct Client* prev;
       while (prev = cptr, cptr = cli_hnext(cptr)) {
+        VERIF_INV(hSeekClient, name, TMask, prev, cptr, hashv);
         if ((cli_status(cptr) & TMask) && (0 == ircd_strcmp(name, cli_name(cptr)))) {
           cli_hnext(prev) = cli_hnext(cptr);
           cli_hnext(cptr) = clientTable[hashv];
@@ -255,6 +258,7 @@ struct Channel* hSeekChannel(const char *name)
     if (0 != ircd_strcmp(name, chptr->chname)) {
       struct Channel* prev;
       while (prev = chptr, chptr = chptr->hnext) {
+        VERIF_INV(hSeekChannel, name, prev, chptr, hashv);
         if (0 == ircd_strcmp(name, chptr->chname)) {
           prev->hnext = chptr->hnext;
           chptr->hnext = channelTable[hashv];
-- 
2.43.0


From 59d255d2369f7fee8f75c33c01fde843262d700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:11 +0000
Subject: [PATCH 22/41] verif: marks in the fan-out functions

---
 include/verif_hooks.h |  4 ++++
 ircd/send.c           | 29 +++++++++++++++++++++++------
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/verif_hooks.h b/include/verif_hooks.h
index 0ab102c..52f7395 100644
--- a/include/verif_hooks.h
+++ b/include/verif_hooks.h
@@ -7,6 +7,8 @@
  * VERIF_CONTRACTS (that is, in every normal build) it expands to
  * nothing.  VERIF_AT(name, args...) marks a place in the same way: what
  * the contract `name' requires of `args' has to hold there.
+ * VERIF_DECAY(array) spells out the conversion to a pointer where the
+ * verifier's front end does not do it.
  */
 #ifndef INCLUDED_verif_hooks_h
 #define INCLUDED_verif_hooks_h
@@ -14,9 +16,11 @@
 #ifdef VERIF_CONTRACTS
 #define VERIF_INV(name, ...) verif_inv_##name(__VA_ARGS__)
 #define VERIF_AT(name, ...) verif_at_##name(__VA_ARGS__)
+#define VERIF_DECAY(array) (&(array)[0])
 #else
 #define VERIF_INV(name, ...) ((void)0)
 #define VERIF_AT(name, ...) ((void)0)
+#define VERIF_DECAY(array) (array)
 #endif
 
 #endif /* INCLUDED_verif_hooks_h */
diff --git a/ircd/send.c b/ircd/send.c
index b2715d4..56aefbb 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -46,6 +46,7 @@
 #include "s_user.h"
 #include "struct.h"
 #include "sys.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <stdio.h>
@@ -373,13 +374,13 @@ void send_buffer(struct Client* to, struct Client* from, struct MsgBuf* buf, int
       int invent = tctx ? tctx->s2s_needs_time : 0;
       taglen = msg_tag_format_s2s(tagbuf, sizeof(tagbuf), tags, local_time,
                                   invent);
-      prefix = taglen ? tagbuf : 0;
+      prefix = taglen ? VERIF_DECAY(tagbuf) : 0;
     }
   } else if (cache) {
     if (cache->ctx.client_relay) {
       taglen = msg_tag_format(cache->prefix, sizeof(cache->prefix),
                               to, from, cache->ctx.tags, cache->ctx.local_time);
-      prefix = taglen ? cache->prefix : 0;
+      prefix = taglen ? VERIF_DECAY(cache->prefix) : 0;
     } else {
       unsigned int profile = msg_tag_profile(to);
 
@@ -391,11 +392,11 @@ void send_buffer(struct Client* to, struct Client* from, struct MsgBuf* buf, int
           : 0;
       }
       taglen = cache->prefix_len;
-      prefix = taglen ? cache->prefix : 0;
+      prefix = taglen ? VERIF_DECAY(cache->prefix) : 0;
     }
   } else {
     taglen = msg_tag_format(tagbuf, sizeof(tagbuf), to, from, tags, local_time);
-    prefix = taglen ? tagbuf : 0;
+    prefix = taglen ? VERIF_DECAY(tagbuf) : 0;
   }
 
   if (prefix && taglen) {
@@ -588,6 +589,7 @@ void sendcmdto_flag_serv_butone(struct Client *from, const char *cmd,
   msgtagctx_init(&mctx, tok);
   /* send it to our downlinks */
   for (lp = cli_serv(&me)->down; lp; lp = lp->next) {
+    VERIF_INV(flinks, lp, one, require, forbid);
     if (one && lp->value.cptr == cli_from(one))
       continue;
     if ((require < FLAG_LAST_FLAG) && !HasFlag(lp->value.cptr, require))
@@ -627,6 +629,7 @@ void sendcmdto_serv_butone(struct Client *from, const char *cmd,
   msgtagctx_init(&mctx, tok);
   /* send it to our downlinks */
   for (lp = cli_serv(&me)->down; lp; lp = lp->next) {
+    VERIF_INV(links, lp, one);
     if (one && lp->value.cptr == cli_from(one))
       continue;
     send_buffer(lp->value.cptr, NULL, mb, 0, &mctx, NULL);
@@ -648,9 +651,11 @@ bump_sentalong(struct Client *one)
   if (!++sentalong_marker)
   {
     int ii;
-    for (ii = 0; ii < HighestFd; ++ii)
+    for (ii = 0; ii < HighestFd; ++ii) {
+      VERIF_INV(bump, ii, one);
       if (LocalClientArray[ii])
         cli_sentalong(LocalClientArray[ii]) = 0;
+    }
     ++sentalong_marker;
   }
   if (one)
@@ -693,10 +698,12 @@ void sendcmdto_common_channels_butone(struct Client *from, const char *cmd,
    * loop through from's channels, and the members on their channels
    */
   for (chan = cli_user(from)->channel; chan; chan = chan->next_channel) {
+    VERIF_INV(common, chan, from, one, 0, 0);
     if (IsZombie(chan) || IsDelayedJoin(chan))
       continue;
     for (member = chan->channel->members; member;
-	 member = member->next_member)
+	 member = member->next_member) {
+      VERIF_INV(sees, member, chan, from, one, 0, 0);
       if (MyConnect(member->user)
           && -1 < cli_fd(cli_from(member->user))
           && member->user != one
@@ -704,6 +711,7 @@ void sendcmdto_common_channels_butone(struct Client *from, const char *cmd,
 	cli_sentalong(member->user) = sentalong_marker;
 	send_buffer(member->user, from, mb, 0, NULL, &tcache);
       }
+    }
   }
 
   if (MyConnect(from) && from != one)
@@ -751,12 +759,14 @@ void sendcmdto_capflag_common_channels_butone(struct Client *from, const char *c
    * loop through from's channels, and the members on their channels
    */
   for (chan = cli_user(from)->channel; chan; chan = chan->next_channel) {
+    VERIF_INV(common, chan, from, one, require, forbid);
     if (IsZombie(chan) || IsDelayedJoin(chan))
       continue;
 
     for (member = chan->channel->members; member;
 	 member = member->next_member)
     {
+      VERIF_INV(sees, member, chan, from, one, require, forbid);
       if (MyConnect(member->user)
           && -1 < cli_fd(cli_from(member->user))
           && member->user != one
@@ -811,6 +821,7 @@ void sendcmdto_capflag_channel_butserv_butone(struct Client *from, const char *c
   tagsendcache_init(&tcache);
   /* send the buffer to each local channel member */
   for (member = to->members; member; member = member->next_member) {
+    VERIF_INV(locals, member, to, one, skip, require, forbid);
     if (!MyConnect(member->user)
         || member->user == one
         || IsZombie(member)
@@ -890,6 +901,7 @@ void sendcmdto_channel_butserv_butone(struct Client *from, const char *cmd,
   tagsendcache_init(&tcache);
   /* send the buffer to each local channel member */
   for (member = to->members; member; member = member->next_member) {
+    VERIF_INV(locals, member, to, one, skip, 0, 0);
     if (!MyConnect(member->user)
         || member->user == one 
         || IsZombie(member)
@@ -934,6 +946,7 @@ void sendcmdto_channel_servers_butone(struct Client *from, const char *cmd,
   bump_sentalong(one);
   cli_sentalong(from) = sentalong_marker;
   for (member = to->members; member; member = member->next_member) {
+    VERIF_INV(servers, member, to, from, one, skip);
     if (MyConnect(member->user)
         || IsZombie(member)
         || cli_fd(cli_from(member->user)) < 0
@@ -987,6 +1000,7 @@ void sendcmdto_channel_butone(struct Client *from, const char *cmd,
   /* send buffer along! */
   bump_sentalong(one);
   for (member = to->members; member; member = member->next_member) {
+    VERIF_INV(butone, member, to, one, skip);
     /* skip one, zombies, and deaf users... */
     if (IsZombie(member) ||
         (skip & SKIP_DEAF && IsDeaf(member->user)) ||
@@ -1055,6 +1069,7 @@ void sendwallto_group_butone(struct Client *from, int type, struct Client *one,
   his_wallops = feature_bool(FEAT_HIS_WALLOPS);
   for (i = 0; i <= HighestFd; i++)
   {
+    VERIF_INV(wall, i, type, his_wallops);
     if (!(cptr = LocalClientArray[i]) ||
 	(cli_fd(cli_from(cptr)) < 0) ||
 	(type == WALL_DESYNCH && !SendDebug(cptr)) ||
@@ -1075,6 +1090,7 @@ void sendwallto_group_butone(struct Client *from, int type, struct Client *one,
   msgtagctx_init(&mctx, tok);
   /* send buffer along! */
   for (lp = cli_serv(&me)->down; lp; lp = lp->next) {
+    VERIF_INV(wlinks, lp, one, type, his_wallops);
     if (one && lp->value.cptr == cli_from(one))
       continue;
     send_buffer(lp->value.cptr, NULL, mb, 1, &mctx, NULL);
@@ -1120,6 +1136,7 @@ void sendcmdto_match_butone(struct Client *from, const char *cmd,
   /* send buffer along */
   bump_sentalong(one);
   for (cptr = GlobalClientList; cptr; cptr = cli_next(cptr)) {
+    VERIF_INV(matched, cptr, from, to, one, who);
     if (!IsRegistered(cptr) || IsServer(cptr) || cli_fd(cli_from(cptr)) < 0 ||
         cli_sentalong(cptr) == sentalong_marker ||
         !match_it(from, cptr, to, who))
-- 
2.43.0


From 3a49fec734f9928a815eefef954994bfa820d6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:11 +0000
Subject: [PATCH 23/41] fix: bump_sentalong() left out the last connection when
 the marker wraps

LocalClientArray[HighestFd] kept its stale marker, so that much later
messages could be mistaken for already sent to that connection.
---
 ircd/send.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/send.c b/ircd/send.c
index 56aefbb..2d5596f 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -651,7 +651,7 @@ bump_sentalong(struct Client *one)
   if (!++sentalong_marker)
   {
     int ii;
-    for (ii = 0; ii < HighestFd; ++ii) {
+    for (ii = 0; ii <= HighestFd; ++ii) {
       VERIF_INV(bump, ii, one);
       if (LocalClientArray[ii])
         cli_sentalong(LocalClientArray[ii]) = 0;
-- 
2.43.0


From 95eb589cd6e8eadabc177e80e4fa2636fddd838d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 24/41] verif: loop marks in the G-line, K-line and Client
 block lookups

---
 ircd/gline.c  | 5 ++++-
 ircd/s_conf.c | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ircd/gline.c b/ircd/gline.c
index ec36e02..cde36dc 100644
--- a/ircd/gline.c
+++ b/ircd/gline.c
@@ -44,6 +44,7 @@
 #include "sys.h"
 #include "msg.h"
 #include "numnicks.h"
+#include "verif_hooks.h"
 #include "numeric.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
@@ -86,7 +87,7 @@ struct Gline* BadChanGlineList = 0;
   /* Iterate through the G-lines in the list */		\
   for ((gl) = (list); (gl); (gl) = (next))		\
     /* Figure out the next pointer in list... */	\
-    if ((((next) = (gl)->gl_next) || 1) &&		\
+    if ((VERIF_AT(gline, gl), ((next) = (gl)->gl_next) || 1) && \
 	/* Then see if it's expired */			\
 	(((gl)->gl_lifetime <= TStime()) ||             \
 	 (((gl)->gl_expire < TStime() - ONE_MONTH) &&   \
@@ -210,6 +211,7 @@ do_gline(struct Client *cptr, struct Client *sptr, struct Gline *gline)
     return 0;
 
   for (fd = HighestFd; fd >= 0; --fd) {
+    VERIF_INV(do_gline, fd, gline);
     /*
      * get the users!
      */
@@ -998,6 +1000,7 @@ gline_lookup(struct Client *cptr, unsigned int flags)
   struct Gline *sgline;
 
   gliter(GlobalGlineList, gline, sgline) {
+    VERIF_INV(gline_lookup, gline, cptr, flags);
     if ((flags & GLINE_GLOBAL && gline->gl_flags & GLINE_LOCAL) ||
         (flags & GLINE_LASTMOD && !gline->gl_lastmod))
       continue;
diff --git a/ircd/s_conf.c b/ircd/s_conf.c
index e6b55ca..8f90bd1 100644
--- a/ircd/s_conf.c
+++ b/ircd/s_conf.c
@@ -482,6 +482,7 @@ enum AuthorizationCheckResult attach_iline(struct Client* cptr)
   assert(0 != cptr);
 
   for (aconf = GlobalConfList; aconf; aconf = aconf->next) {
+    VERIF_INV(attach_iline, aconf, cptr);
     if (aconf->status != CONF_CLIENT)
       continue;
     /* If you change any of this logic, please make corresponding
@@ -1152,6 +1153,7 @@ int rehash(struct Client *cptr, int sig)
    * Flush out deleted I and P lines although still in use.
    */
   for (tmp = &GlobalConfList; (tmp2 = *tmp);) {
+    VERIF_INV(rehash_flush, tmp);
     if (CONF_ILLEGAL == (tmp2->status & CONF_ILLEGAL)) {
       *tmp = tmp2->next;
       tmp2->next = NULL;
@@ -1163,6 +1165,7 @@ int rehash(struct Client *cptr, int sig)
   }
 
   for (i = 0; i <= HighestFd; i++) {
+    VERIF_INV(rehash, i, cptr);
     if ((acptr = LocalClientArray[i])) {
       const struct wline *wline;
       assert(!IsMe(acptr));
@@ -1264,6 +1267,7 @@ int find_kill(struct Client *cptr)
    *             -- Isomer
    */
   for (deny = denyConfList; deny; deny = deny->next) {
+    VERIF_INV(find_kill, deny, cptr);
     if (deny->usermask && match(deny->usermask, name))
       continue;
     if (deny->realmask && match(deny->realmask, realname))
-- 
2.43.0


From e18a74aba61b17351a92a68a0b6dad30626d8dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 25/41] fix: match G-lines on host masks against connecting
 users

gline_lookup() compares the host mask with cli_user()->realhost, which was
still empty when check_auth_finished() looked for bans, so only the check
when the G-line was set (or a rehash) removed such users.
---
 ircd/s_auth.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 20ec3b3..f85a00b 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -536,6 +536,9 @@ static int check_auth_finished(struct AuthRequest *auth, int bitclr)
       s[USERLEN] = '\0';
     } /* else cleaned version of client-provided name is in place */
 
+    /* G-lines on host masks are matched against the real host. */
+    ircd_strncpy(user->realhost, cli_sockhost(sptr), HOSTLEN);
+
     /* Check for K- or G-line. */
     FlagSet(&auth->flags, AR_GLINE_CHECKED);
     killreason = find_kill(sptr);
-- 
2.43.0


From 33e36065804a0e170407cbdb0bd18da67b79e5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:38 +0000
Subject: [PATCH 26/41] fix: ignore USER once the K- and G-line check is done

A second USER before NICK or PONG replaced the user name (without the ~ of
an unconfirmed one) and the real name after bans had been checked.
---
 ircd/s_auth.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index f85a00b..87999c3 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1367,6 +1367,9 @@ int auth_set_user(struct AuthRequest *auth, const char *username, const char *ho
   assert(auth != NULL);
   if (FlagHas(&auth->flags, AR_IAUTH_HURRY))
     return 0;
+  /* Once K- and G-lines were checked, what they were checked against stays. */
+  if (FlagHas(&auth->flags, AR_GLINE_CHECKED))
+    return 0;
   cptr = auth->client;
   ircd_strncpy(cli_info(cptr), userinfo, REALLEN);
   clean_username(cli_user(cptr)->username, username);
-- 
2.43.0


From 8998c1fd6b0d39836f0b6f17e82cd1a2549c3535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:13 +0000
Subject: [PATCH 27/41] verif: loop invariants in s_auth.c (no-ops by default)

---
 ircd/s_auth.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 87999c3..bd566f2 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -65,6 +65,7 @@
 #include "s_stats.h"
 #include "s_user.h"
 #include "send.h"
+#include "verif_hooks.h"
 
 #include <errno.h>
 #include <string.h>
@@ -671,7 +672,7 @@ auth_verify_hostname(const char *host, int maxlen)
   int i;
 
   /* Walk through the host name */
-  for (i = 0; host[i]; i++)
+  for (i = 0; VERIF_INV(auth_verify_hostname, i, host, maxlen), host[i]; i++)
     /* If it's not a hostname character or if it's too long, return false */
     if (!IsHostChar(host[i]) || i >= maxlen)
       return 0;
@@ -1087,6 +1088,7 @@ static void auth_dns_callback(void* vptr, const struct irc_in_addr *addrs, int a
            cli_sock_ip(auth->client), addr_count, h_name));
     
     for (i = 0; i < addr_count; i++) {
+      VERIF_INV(auth_dns_callback, i, addrs, addr_count, auth);
       char resolved_ip[64];
       ircd_strncpy(resolved_ip, ircd_ntoa(&addrs[i]), sizeof(resolved_ip));
       Debug((DEBUG_DNS, "  IP[%d]: %s", i, resolved_ip));
-- 
2.43.0


From 96530fa6236933e457693cdfb2329c527254d688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:13 +0000
Subject: [PATCH 28/41] fix: start_auth(): do not finish a registration twice

With nothing pending, start_dns_ident() already finishes the request of a
connection to a server port; finishing it again put it on the free list
twice, so that two later connections shared one AuthRequest.
---
 ircd/s_auth.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index bd566f2..b8144b5 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -1302,8 +1302,11 @@ void start_auth(struct Client* client)
   /* Add client to GlobalClientList. */
   add_client_to_list(client);
 
-  /* Check which auth events remain pending. */
-  check_auth_finished(auth, 0);
+  /* Check which auth events remain pending, unless start_dns_ident()
+   * found that none do and is done with this request.
+   */
+  if (cli_auth(client))
+    check_auth_finished(auth, 0);
 }
 
 /** Start DNS and ident queries for a client, if appropriate.
@@ -1328,8 +1331,11 @@ void start_dns_ident(struct Client *client)
   if (IsCloudflarePort(client) && !FlagHas(&auth->flags, AR_IAUTH_PENDING))
     start_iauth_query(auth);
 
-  /* Check which auth events remain pending. */
-  check_auth_finished(auth, 0);
+  /* Check which auth events remain pending, unless start_dns_ident()
+   * found that none do and is done with this request.
+   */
+  if (cli_auth(client))
+    check_auth_finished(auth, 0);
 }
 
 /** Mark that a user has PONGed while unregistered.
-- 
2.43.0


From a548bca222b1b13afb651370e02afabd83925a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:24 +0000
Subject: [PATCH 29/41] verif: markers in match()

---
 ircd/match.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ircd/match.c b/ircd/match.c
index cb3db43..31f1605 100644
--- a/ircd/match.c
+++ b/ircd/match.c
@@ -26,6 +26,7 @@
 #include "ircd_chattr.h"
 #include "ircd_string.h"
 #include "ircd_snprintf.h"
+#include "verif_hooks.h"
 
 /*
  * mmatch()
@@ -192,7 +193,7 @@ int match(const char *mask, const char *name)
   const char *m_tmp = mask, *n_tmp = name;
   int star_p;
 
-  for (;;) switch (*m) {
+  for (; VERIF_INV(match, mask, m, n, m_tmp, n_tmp), 1; ) switch (*m) {
   case '\0':
     if (!*n)
       return 0;
@@ -203,6 +204,7 @@ int match(const char *mask, const char *name)
     n = ++n_tmp;
     if (*n == '\0')
       return 1;
+    VERIF_AT(match_back, n);
     break;
   case '\\':
     m++;
@@ -211,7 +213,7 @@ int match(const char *mask, const char *name)
       goto backtrack;
     break;
   case '*': case '?':
-    for (star_p = 0; ; m++) {
+    for (star_p = 0; VERIF_INV(match_run, mask, m, n, m_tmp, n_tmp, star_p), VERIF_AT(match_run, m, n), 1; m++) {
       if (*m == '*')
         star_p = 1;
       else if (*m == '?') {
@@ -226,13 +228,14 @@ int match(const char *mask, const char *name)
         m_tmp = ++m;
         if (!*m)
           return 1;
-        for (n_tmp = n; *n && *n != *m; n++) ;
+        for (n_tmp = n; VERIF_INV(match_scan, m, n, n_tmp), *n && *n != *m; n++) ;
         if (!*n || *n++ != *m++)
           return 1;
       } else {
         m_tmp = m;
-        for (n_tmp = n; *n && ToLower(*n) != ToLower(*m); n++) ;
+        for (n_tmp = n; VERIF_INV(match_scan, m, n, n_tmp), *n && ToLower(*n) != ToLower(*m); n++) ;
       }
+      VERIF_AT(match_star, m, n);
     }
     continue;
   default:
-- 
2.43.0


From 889aeead3ca55d995bcb923c6d497f28352a1a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:24 +0000
Subject: [PATCH 30/41] fix: match(): keep escapes when backtracking, do not
 read past a lone backslash

After a '*', match() put its way back behind the backslash of an escaped
character, so that on a second try the character was taken for a plain
(or wild) one: match("{?*\\?", "[a?[?b") was a match although the name
does not end in '?'.  A mask ending in a single backslash made it compare
the two terminators and read on behind both strings.
---
 ircd/match.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ircd/match.c b/ircd/match.c
index 31f1605..758c302 100644
--- a/ircd/match.c
+++ b/ircd/match.c
@@ -208,8 +208,10 @@ int match(const char *mask, const char *name)
     break;
   case '\\':
     m++;
-    /* allow escaping to force capitalization */
-    if (*m++ != *n++)
+    /* allow escaping to force capitalization; nothing follows a lone
+     * backslash at the end of the mask, so it matches nothing
+     */
+    if (!*m || *m++ != *n++)
       goto backtrack;
     break;
   case '*': case '?':
@@ -225,11 +227,12 @@ int match(const char *mask, const char *name)
       if (!*m)
         return 0;
       else if (*m == '\\') {
-        m_tmp = ++m;
-        if (!*m)
+        /* keep the backslash in sight, for when we come back here */
+        m_tmp = m;
+        if (!m[1])
           return 1;
-        for (n_tmp = n; VERIF_INV(match_scan, m, n, n_tmp), *n && *n != *m; n++) ;
-        if (!*n || *n++ != *m++)
+        for (n_tmp = n; VERIF_INV(match_scan, m, n, n_tmp), *n && *n != m[1]; n++) ;
+        if (!*n)
           return 1;
       } else {
         m_tmp = m;
-- 
2.43.0


From faf2dc75b3a26c9bdb2ffad85d04c5c07e611828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:57 +0000
Subject: [PATCH 31/41] verif: markers in gline_find() and gline_burst()

---
 ircd/gline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/gline.c b/ircd/gline.c
index cde36dc..fa79814 100644
--- a/ircd/gline.c
+++ b/ircd/gline.c
@@ -949,6 +949,7 @@ gline_find(char *userhost, unsigned int flags)
 
   if (flags & (GLINE_BADCHAN | GLINE_ANY)) {
     gliter(BadChanGlineList, gline, sgline) {
+        VERIF_INV(gline_find_chan, gline);
         if ((flags & (GlineIsLocal(gline) ? GLINE_GLOBAL : GLINE_LOCAL)) ||
 	  (flags & GLINE_LASTMOD && !gline->gl_lastmod))
 	continue;
@@ -966,6 +967,7 @@ gline_find(char *userhost, unsigned int flags)
   canon_userhost(t_uh, &user, &host, "*");
 
   gliter(GlobalGlineList, gline, sgline) {
+    VERIF_INV(gline_find, gline, user, host);
     if ((flags & (GlineIsLocal(gline) ? GLINE_GLOBAL : GLINE_LOCAL)) ||
 	(flags & GLINE_LASTMOD && !gline->gl_lastmod))
       continue;
@@ -1061,6 +1063,7 @@ gline_burst(struct Client *cptr)
   struct Gline *sgline;
 
   gliter(GlobalGlineList, gline, sgline) {
+    VERIF_INV(gline_burst, gline, cptr);
     if (!GlineIsLocal(gline) && gline->gl_lastmod)
       sendcmdto_one(&me, CMD_GLINE, cptr, "* %c%s%s%s %Tu %Tu %Tu :%s",
 		    GlineIsRemActive(gline) ? '+' : '-', gline->gl_user,
@@ -1071,6 +1074,7 @@ gline_burst(struct Client *cptr)
   }
 
   gliter(BadChanGlineList, gline, sgline) {
+    VERIF_INV(gline_burst_chan, gline, cptr);
     if (!GlineIsLocal(gline) && gline->gl_lastmod)
       sendcmdto_one(&me, CMD_GLINE, cptr, "* %c%s %Tu %Tu %Tu :%s",
 		    GlineIsRemActive(gline) ? '+' : '-', gline->gl_user,
-- 
2.43.0


From 57ced7464ad0f4139cec5e7a818c2f77d43b9279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:17 +0000
Subject: [PATCH 32/41] verif: markers in the PRIVMSG, NOTICE and TAGMSG
 handlers

---
 ircd/ircd_relay.c | 2 ++
 ircd/m_notice.c   | 3 +++
 ircd/m_privmsg.c  | 3 +++
 ircd/m_tagmsg.c   | 3 +++
 4 files changed, 11 insertions(+)

diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index 134c7f8..b26d69e 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -684,6 +684,7 @@ void relay_masked_message(struct Client* sptr, const char* mask, const char* tex
     return;
   }
   while (*++s) {
+    VERIF_INV(toplevel, s, mask);
     if (*s == '.' || *s == '*' || *s == '?')
        break;
   }
@@ -732,6 +733,7 @@ void relay_masked_notice(struct Client* sptr, const char* mask, const char* text
     return;
   }
   while (*++s) {
+    VERIF_INV(toplevel, s, mask);
     if (*s == '.' || *s == '*' || *s == '?')
        break;
   }
diff --git a/ircd/m_notice.c b/ircd/m_notice.c
index f253535..867b589 100644
--- a/ircd/m_notice.c
+++ b/ircd/m_notice.c
@@ -92,6 +92,7 @@
 #include "msg.h"
 #include "numeric.h"
 #include "send.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <string.h>
@@ -130,6 +131,7 @@ int m_notice(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   count = unique_name_vector(parv[1], ',', vector, MAXTARGETS);
 
   for (i = 0; i < count; ++i) {
+    VERIF_INV(targets, i, count, vector);
     name = vector[i];
     /*
      * channel msg?
@@ -220,6 +222,7 @@ int mo_notice(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   count = unique_name_vector(parv[1], ',', vector, MAXTARGETS);
 
   for (i = 0; i < count; ++i) {
+    VERIF_INV(targets, i, count, vector);
     name = vector[i];
     /*
      * channel msg?
diff --git a/ircd/m_privmsg.c b/ircd/m_privmsg.c
index b9928dc..5c6d9bf 100644
--- a/ircd/m_privmsg.c
+++ b/ircd/m_privmsg.c
@@ -93,6 +93,7 @@
 #include "msg.h"
 #include "numeric.h"
 #include "send.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <string.h>
@@ -126,6 +127,7 @@ int m_privmsg(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   count = unique_name_vector(parv[1], ',', vector, MAXTARGETS);
 
   for (i = 0; i < count; ++i) {
+    VERIF_INV(targets, i, count, vector);
     name = vector[i];
     /*
      * channel msg?
@@ -216,6 +218,7 @@ int mo_privmsg(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
   count = unique_name_vector(parv[1], ',', vector, MAXTARGETS);
 
   for (i = 0; i < count; ++i) {
+    VERIF_INV(targets, i, count, vector);
     name = vector[i];
     /*
      * channel msg?
diff --git a/ircd/m_tagmsg.c b/ircd/m_tagmsg.c
index 2ad177a..1066b77 100644
--- a/ircd/m_tagmsg.c
+++ b/ircd/m_tagmsg.c
@@ -24,6 +24,7 @@
 #include "msg.h"
 #include "numeric.h"
 #include "send.h"
+#include "verif_hooks.h"
 
 #include <string.h>
 
@@ -56,6 +57,7 @@ m_tagmsg(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
   count = unique_name_vector(parv[1], ',', vector, MAXTARGETS);
 
   for (i = 0; i < count; ++i) {
+    VERIF_INV(targets, i, count, vector);
     name = vector[i];
     if (IsChannelPrefix(*name))
       relay_channel_tagmsg(sptr, name);
@@ -109,6 +111,7 @@ mo_tagmsg(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
   count = unique_name_vector(parv[1], ',', vector, MAXTARGETS);
 
   for (i = 0; i < count; ++i) {
+    VERIF_INV(targets, i, count, vector);
     name = vector[i];
     if (IsChannelPrefix(*name))
       relay_channel_tagmsg(sptr, name);
-- 
2.43.0


From 47784a3d8769409ab84a9a0be6f74e8cb3d42a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:17 +0000
Subject: [PATCH 33/41] fix: TAGMSG from a client without message-tags was
 relayed after being refused

---
 ircd/m_tagmsg.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ircd/m_tagmsg.c b/ircd/m_tagmsg.c
index 1066b77..eb58e3c 100644
--- a/ircd/m_tagmsg.c
+++ b/ircd/m_tagmsg.c
@@ -31,8 +31,10 @@
 static int
 tagmsg_check_cap(struct Client *sptr)
 {
-  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS))
-    return send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+  if (!CapHas(cli_active(sptr), CAP_MESSAGE_TAGS)) {
+    send_reply(sptr, ERR_UNKNOWNCOMMAND, MSG_TAGMSG);
+    return 1;
+  }
   return 0;
 }
 
-- 
2.43.0


From d0b8ba3f4df261a4025a5470f4309f39e98d6842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:17 +0000
Subject: [PATCH 34/41] fix: TAGMSG to a mask: same mask syntax and top-level
 check as PRIVMSG and NOTICE

---
 ircd/ircd_relay.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index b26d69e..78437a3 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -942,13 +942,27 @@ relay_masked_tagmsg(struct Client *sptr, const char *mask)
   if (!IsOper(sptr))
     return;
 
+  /*
+   * look for the last '.' in mask and scan forward
+   */
+  if (0 == (s = strrchr(mask, '.'))) {
+    send_reply(sptr, ERR_NOTOPLEVEL, mask);
+    return;
+  }
+  while (*++s) {
+    VERIF_INV(toplevel, s, mask);
+    if (*s == '.' || *s == '*' || *s == '?')
+       break;
+  }
+  if (*s == '*' || *s == '?') {
+    send_reply(sptr, ERR_WILDTOPLEVEL, mask);
+    return;
+  }
   s = mask;
-  if (*s == '$')
-    ++s;
-  if (*s == '#')
-    ++s;
-  if (*s == '~')
+  if ('@' == *++s) {
     host_mask = 1;
+    ++s;
+  }
 
   sendcmdto_match_butone(sptr, CMD_TAGMSG, s,
 			 IsServer(cli_from(sptr)) ? cli_from(sptr) : 0,
@@ -1015,12 +1029,10 @@ server_relay_masked_tagmsg(struct Client *sptr, const char *mask)
   assert(0 != mask);
 
   s = mask;
-  if (*s == '$')
-    ++s;
-  if (*s == '#')
-    ++s;
-  if (*s == '~')
+  if ('@' == *++s) {
     host_mask = 1;
+    ++s;
+  }
 
   sendcmdto_match_butone(sptr, CMD_TAGMSG, s,
 			 IsServer(cli_from(sptr)) ? cli_from(sptr) : 0,
-- 
2.43.0


From c2ce0277ce269f3a5cf7c82cc9fcdc20bc4f413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:59 +0000
Subject: [PATCH 35/41] verif: markers in numnicks.c

---
 ircd/numnicks.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index 01dc2ee..8456a7d 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -33,6 +33,7 @@
 #include "s_debug.h"
 #include "s_misc.h"
 #include "struct.h"
+#include "verif_hooks.h"
 
 /* #include <assert.h> -- Now using assert in ircd_log.h */
 #include <stdio.h>
@@ -137,6 +138,7 @@ unsigned int base64toint(const char* s)
 {
   unsigned int i = convert2n[(unsigned char) *s++];
   while (*s) {
+    VERIF_INV(base64toint, s, i);
     i <<= NUMNICKLOG;
     i += convert2n[(unsigned char) *s++];
   }
@@ -152,6 +154,7 @@ const char* inttobase64(char* buf, unsigned int v, unsigned int count)
 {
   buf[count] = '\0';
   while (count > 0) {
+    VERIF_INV(inttobase64, buf, v, count);
     buf[--count] = convert2y[(v & NUMNICKMASK)];
     v >>= NUMNICKLOG;
   }
@@ -273,8 +276,10 @@ void SetYXXCapacity(struct Client* c, unsigned int capacity)
   /*
    * Calculate mask to be used for the maximum number of clients
    */
-  while (max_clients < capacity)
+  while (max_clients < capacity) {
+    VERIF_INV(capacity, max_clients, capacity);
     max_clients <<= 1;
+  }
   /*
    * Sanity checks
    */
-- 
2.43.0


From 62935d823b413f708801187bea22c83cc7b3727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:59 +0000
Subject: [PATCH 36/41] fix: numeric lookups: do not read past the end of an
 empty numeric

---
 ircd/numnicks.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index 8456a7d..1b41b77 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -136,7 +136,7 @@ static const unsigned int convert2n[] = {
  */
 unsigned int base64toint(const char* s)
 {
-  unsigned int i = convert2n[(unsigned char) *s++];
+  unsigned int i = 0;
   while (*s) {
     VERIF_INV(base64toint, s, i);
     i <<= NUMNICKLOG;
@@ -185,6 +185,8 @@ struct Client* FindNServer(const char* numeric)
 {
   unsigned int len = strlen(numeric);
 
+  if (len == 0)
+    return 0;
   if (len < 3) {
     Debug((DEBUG_DEBUG, "FindNServer: %s(%d)", numeric, base64toint(numeric)));
     return server_list[base64toint(numeric)];
-- 
2.43.0


From f509d9ab94b6902c339d4c1c14525874c4f44adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:24 +0000
Subject: [PATCH 37/41] verif: loop invariants in the address codec

---
 ircd/numnicks.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index 1b41b77..efda61d 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -466,11 +466,13 @@ const char* iptobase64(char* buf, const struct irc_in_addr* addr, unsigned int c
     assert(count >= 25);
     /* Can start by printing out the leading non-zero parts. */
     for (ii = 0; (ii < 8) && (addr->in6_16[ii]); ++ii) {
+      VERIF_INV(ip_lead, output, buf, addr, ii);
       inttobase64(output, ntohs(addr->in6_16[ii]), 3);
       output += 3;
     }
     /* Find the longest run of zeros. */
     for (max_start = zero = ii, max_zeros = curr_zeros = 0; ii < 8; ++ii) {
+      VERIF_INV(ip_run, addr, ii, zero, max_start, max_zeros, curr_zeros);
       if (!addr->in6_16[ii])
         curr_zeros++;
       else if (curr_zeros > max_zeros) {
@@ -485,7 +487,9 @@ const char* iptobase64(char* buf, const struct irc_in_addr* addr, unsigned int c
       curr_zeros = 0;
     }
     /* Print the rest of the address */
+    VERIF_AT(ip_run, max_start, max_zeros);
     for (ii = zero; ii < 8; ) {
+      VERIF_INV(ip_rest, output, buf, addr, ii, zero, max_start, max_zeros);
       if ((ii == max_start) && max_zeros) {
         *output++ = '_';
         ii += max_zeros;
@@ -518,10 +522,13 @@ void base64toip(const char* input, struct irc_in_addr* addr)
   } else {
     unsigned int pos = 0;
     do {
+      VERIF_INV(ip_read, input, addr, pos);
       if (*input == '_') {
         unsigned int left;
-        for (left = (25 - strlen(input)) / 3 - pos; left; left--)
+        for (left = (25 - strlen(input)) / 3 - pos; left; left--) {
+          VERIF_INV(ip_zeros, addr, pos, left);
           addr->in6_16[pos++] = 0;
+        }
         input++;
       } else {
         unsigned short accum = convert2n[(unsigned char)*input++];
-- 
2.43.0


From f5ca0e3b4a50c5860ba28ef38279137ae96ead56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:24 +0000
Subject: [PATCH 38/41] fix: start a new run of zeros after a shorter one in
 iptobase64()

A run of zero words that was not longer than the longest one so far was not
forgotten when a nonzero word ended it, so the next run was counted as longer
than it is: 2001:0:0:a:0:b:0:0 was sent to other servers as an address in which
the words a and b are zero.
---
 ircd/numnicks.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ircd/numnicks.c b/ircd/numnicks.c
index efda61d..2d112d4 100644
--- a/ircd/numnicks.c
+++ b/ircd/numnicks.c
@@ -475,9 +475,11 @@ const char* iptobase64(char* buf, const struct irc_in_addr* addr, unsigned int c
       VERIF_INV(ip_run, addr, ii, zero, max_start, max_zeros, curr_zeros);
       if (!addr->in6_16[ii])
         curr_zeros++;
-      else if (curr_zeros > max_zeros) {
-        max_start = ii - curr_zeros;
-        max_zeros = curr_zeros;
+      else {
+        if (curr_zeros > max_zeros) {
+          max_start = ii - curr_zeros;
+          max_zeros = curr_zeros;
+        }
         curr_zeros = 0;
       }
     }
-- 
2.43.0


From c710f8446161ef237bab4611e5eed2d831c2eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:24 +0000
Subject: [PATCH 39/41] verif: loop invariants in ircd_ntoa_r()

---
 ircd/ircd_string.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index d344bbd..ec4157f 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -414,6 +414,7 @@ const char* ircd_ntoa_r(char* buf, const struct irc_in_addr* in)
 
       /* Find longest run of zeros. */
       for (max_start = ii = 1, max_zeros = curr_zeros = 0; ii < 8; ++ii) {
+        VERIF_INV(ntoa_run, in, ii, max_start, max_zeros, curr_zeros);
         if (!in->in6_16[ii])
           curr_zeros++;
         else if (curr_zeros > max_zeros) {
@@ -430,7 +431,9 @@ const char* ircd_ntoa_r(char* buf, const struct irc_in_addr* in)
       /* Print out address. */
 /** Append \a CH to the output buffer. */
 #define APPEND(CH) do { buf[pos++] = (CH); } while (0)
+      VERIF_AT(ntoa_run, max_start, max_zeros);
       for (pos = ii = 0; (ii < 8); ++ii) {
+        VERIF_INV(ntoa_text, buf, in, pos, ii, max_start, max_zeros);
         if ((max_zeros > 0) && (ii == max_start)) {
           APPEND(':');
           ii += max_zeros - 1;
-- 
2.43.0


From 5b3cc3792c0e5c375b3c320e50ac0ff8e2b2049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:24 +0000
Subject: [PATCH 40/41] fix: start a new run of zeros after a shorter one in
 ircd_ntoa_r()

As in iptobase64(): a shorter run of zero words was added to the next run, so
that the text of 2001:0:0:a:0:b:0:0 left out the word b.
---
 ircd/ircd_string.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index ec4157f..be5b676 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -417,9 +417,11 @@ const char* ircd_ntoa_r(char* buf, const struct irc_in_addr* in)
         VERIF_INV(ntoa_run, in, ii, max_start, max_zeros, curr_zeros);
         if (!in->in6_16[ii])
           curr_zeros++;
-        else if (curr_zeros > max_zeros) {
-          max_start = ii - curr_zeros;
-          max_zeros = curr_zeros;
+        else {
+          if (curr_zeros > max_zeros) {
+            max_start = ii - curr_zeros;
+            max_zeros = curr_zeros;
+          }
           curr_zeros = 0;
         }
       }
-- 
2.43.0


From 8784e14efc3bb040114f2169317430e0613aeeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:36 +0000
Subject: [PATCH 41/41] verif: name the place of each word in ircd_ntoa_r()

---
 ircd/ircd_string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/ircd_string.c b/ircd/ircd_string.c
index be5b676..33c919a 100644
--- a/ircd/ircd_string.c
+++ b/ircd/ircd_string.c
@@ -436,6 +436,7 @@ const char* ircd_ntoa_r(char* buf, const struct irc_in_addr* in)
       VERIF_AT(ntoa_run, max_start, max_zeros);
       for (pos = ii = 0; (ii < 8); ++ii) {
         VERIF_INV(ntoa_text, buf, in, pos, ii, max_start, max_zeros);
+        VERIF_AT(ntoa_word, pos, ii);
         if ((max_zeros > 0) && (ii == max_start)) {
           APPEND(':');
           ii += max_zeros - 1;
@@ -453,6 +454,7 @@ const char* ircd_ntoa_r(char* buf, const struct irc_in_addr* in)
           APPEND(':');
       }
 #undef APPEND
+      VERIF_AT(ntoa_word, pos, 8);
 
       /* Nul terminate and return number of characters used. */
       buf[pos++] = '\0';
-- 
2.43.0

